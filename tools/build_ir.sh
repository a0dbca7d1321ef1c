#!/bin/bash
# build_ir.sh [f64]: compiles the harness with /repo's current tree to LLVM IR
set -e
cd /verif/harness
export RUSTUP_TOOLCHAIN=1.98.1 CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg pbrtrs_verif" RUSTC_WRAPPER=
F=""; export CARGO_TARGET_DIR=/verif/harness/target
if [ "$1" = f64 ]; then F="--features f64"; export CARGO_TARGET_DIR=/verif/harness/target64; fi
rm -rf $CARGO_TARGET_DIR/debug/.fingerprint/pbrtrs-* $CARGO_TARGET_DIR/debug/.fingerprint/pvh-*
cargo rustc --lib --offline $F -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -A warnings 2>&1 | grep -E "^error|panicked" -A12 || true
ls -la $CARGO_TARGET_DIR/debug/deps/pvh*.ll
