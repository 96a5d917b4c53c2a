#!/bin/bash
# Builds every driver once, so that checks start warm. Failure here is not fatal: each check builds its own.
cd "$(dirname "$0")"
mkdir -p build evidence
export CARGO_TARGET_DIR="$PWD/build/target" CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
for d in native/d_*; do cargo build --offline --locked --quiet --manifest-path "$d/Cargo.toml" || echo "setup: $d does not build"; done
verus --version >/dev/null || echo "setup: verus missing"
exit 0
