#!/bin/bash
# builds the simulator against /repo's working tree
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_INCREMENTAL RUST_LOG CARGO_PROFILE_DEV_DEBUG RUSTC
export RUSTC_BOOTSTRAP=1
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0 -Cunsafe-allow-abi-mismatch=sanitizer -Crelocation-model=static -Awarnings"
export CARGO_TARGET_DIR="${SIM_TARGET_DIR:-$(cd "$(dirname "$0")/.." && pwd)/target}"
cd "$(dirname "$0")" && exec cargo build --offline --target x86_64-unknown-linux-gnu "$@"
