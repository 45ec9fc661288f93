#!/bin/bash
# Builds the simulator and everything under test (std included) with compiler-inserted hooks.
cd "$(dirname "$0")"
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Clink-arg=-Wl,--export-dynamic-symbol=getrandom"
export CARGO_TARGET_DIR="${SIM_TARGET:-/verif/target}"
[ -f Cargo.lock ] || cp /opt/vp/Cargo.lock Cargo.lock
cargo +nightly build --offline --target x86_64-unknown-linux-gnu -Zbuild-std=std,panic_unwind "$@"
