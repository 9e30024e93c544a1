#!/bin/bash
# Build the engine and warm the shared target directory with the harnesses' dependencies.
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR="$PWD/engine/target" cargo build --release --offline --manifest-path engine/Cargo.toml
for c in c01 c13; do
  [ -d harness/$c ] || continue
  ( cd harness/$c
    CARGO_TARGET_DIR=../../target cargo rustc --release --offline --bin $c -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -C linker=/bin/true
    CARGO_TARGET_DIR=../../target cargo build --offline --bin $c --features native --profile dev )
done
