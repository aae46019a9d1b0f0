#!/bin/bash
# Builds the simulator against /repo's current working tree, offline.
cd "$(dirname "$0")" || exit 2
export RUSTC_BOOTSTRAP=1 CARGO_TARGET_DIR=${SIM_TARGET:-$PWD/target} CARGO_NET_OFFLINE=true
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer"
exec cargo build --offline --target x86_64-unknown-linux-gnu "$@"
