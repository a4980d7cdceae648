#!/bin/bash
# replay.sh FILE: run the failing input a check recorded against the code in /repo, natively.
cd "$(dirname "$0")/.." || exit 2
h=$(sed -n 's/^harness: //p' "$1" | head -1); f=$(sed -n 's/^features: //p' "$1" | head -1)
[ -n "$h" ] || { echo "no failing input recorded in $1"; exit 2; }
cargo build --manifest-path kani/Cargo.toml --offline --release --bin native --target-dir .build/native-replay --no-default-features --features "$f,all" -q || exit 2
p=$(sed -n "s/^property: //p" "$1" | head -1); [ "$p" = C20 ] || export VP_ONLY=$p
.build/native-replay/release/native replay "$h" "$1"
