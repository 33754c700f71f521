#!/bin/bash
# Builds the schedule explorer (instrumented library, dependencies and standard library).
cd "$(dirname "$0")" || exit 2
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
export RUSTC_WRAPPER="$PWD/rustc.sh"
exec cargo +nightly build -q --offline --locked --release -Zbuild-std=std,panic_unwind --target x86_64-unknown-linux-gnu
