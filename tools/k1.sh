#!/bin/bash
# harnesses under Kani, by hand: k1.sh FEATURES HARNESS...
cd "$(dirname "$0")/../kani"; F=$1; shift; H=(); for h in "$@"; do H+=(--harness $h); done
CARGO_NET_OFFLINE=true timeout ${T:-600} cargo kani --lib --no-default-features --features $F,${M:-all} "${H[@]}" -j 8 --output-format terse --harness-timeout ${HT:-240}s -Z stubbing -Z unstable-options --target-dir ../.build/kani-hand-$F 2>&1 | tail -${N:-40}
