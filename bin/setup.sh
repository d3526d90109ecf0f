#!/bin/bash
# builds the executor and warms the dependency build of the harness; checks rebuild what is missing or changed
set -e
cd "$(dirname "$0")/.."
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p .build
(cd engine && CARGO_TARGET_DIR=../.build/engine cargo build --release --offline)
.build/engine/release/symex selftest 20000
.build/engine/release/symex mathtest
(cd harness && CARGO_TARGET_DIR=../.build/target RUSTFLAGS="-C save-temps -C opt-level=0" cargo build --release --offline --features p01)
rm -f .build/target/release/deps/harness-*
