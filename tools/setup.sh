#!/bin/bash
# Checks rebuild everything that depends on /repo; only the extractor (which does not) is built here.
cd "$(dirname "$0")/.." || exit 1
export CARGO_NET_OFFLINE=true
cargo kani --version && verus --version >/dev/null && cargo metadata --offline --format-version 1 --manifest-path kani/Cargo.toml >/dev/null &&
cargo build --offline --release --manifest-path extract/Cargo.toml --target-dir .build/extract
