#!/bin/bash
# builds the engine, and warms the dependency builds of the harness
set -e
cd "$(dirname "$0")/.."
export RUSTUP_TOOLCHAIN=1.98.1 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
V=$PWD
CARGO_TARGET_DIR=$V/engine/target cargo build --release --offline -q --manifest-path $V/engine/Cargo.toml
$V/engine/target/release/symex --selftest --n 4000
export RUSTFLAGS="--cfg pbrtrs_verif"
cd harness
CARGO_TARGET_DIR=$V/harness/target cargo build --lib --offline -q
CARGO_TARGET_DIR=$V/harness/target64 cargo build --lib --offline -q --features f64
CARGO_TARGET_DIR=$V/harness/target_native cargo build --profile replay --offline -q --features native --bin replay
