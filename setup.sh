#!/bin/bash
# Builds the monitors once, so that a broken toolchain shows at once. Checks rebuild anyway.
cd "$(dirname "$0")/harness" || exit 1
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$(cd .. && pwd)/target" CARGO_TERM_COLOR=never
cargo build --offline -q
cargo build --offline -q --manifest-path /repo/Cargo.toml -p rpcgen --bin rpcgen --target-dir "$CARGO_TARGET_DIR/repo" || true
