#!/bin/bash
# Builds the harness once, so that a broken toolchain shows early. Every check builds for itself.
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
CARGO_TARGET_DIR="$PWD/build/target" RUSTFLAGS=-Awarnings cargo build --offline --quiet --manifest-path harness/Cargo.toml
