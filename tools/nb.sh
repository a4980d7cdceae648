#!/bin/bash
# build the native runner and search every harness for a moment: nb.sh [pattern] [ms] [features]
cd "$(dirname "$0")/../kani"; F=${3:-std}
CARGO_NET_OFFLINE=true cargo build --offline --release --bin native --target-dir ../.build/native-$F --no-default-features --features "$F,${4:-all}" 2>&1 | grep -E "^error" -A12
for h in $(../.build/native-$F/release/native list | grep -E "${1:-.}"); do
  ../.build/native-$F/release/native search $h 1 ${2:-300} | grep fail -A2 | sed "s/^/$h: /"
done
