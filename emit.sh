#!/bin/bash
# Emit the LLVM IR of the harnesses together with the real hyperbee crate (whole program, one module).
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${CARGO_TARGET_DIR:-$PWD/target}"
rm -f "$CARGO_TARGET_DIR"/release/deps/harness-*.ll
cargo rustc ${FEATURES:-} --offline --release -p harness --lib --crate-type staticlib --config 'profile.release.lto="fat"' -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp
ls "$CARGO_TARGET_DIR"/release/deps/harness-*.ll
