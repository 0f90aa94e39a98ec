#!/bin/bash
# run with the library's root as working directory; exit 0: behaves, nonzero: broken
here="$(cd "$(dirname "$0")" && pwd)"
lib="$PWD"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
mkdir -p "$t/src" "$t/work"
cp "$here/main.rs" "$t/src/main.rs"
[ -f "$lib/Cargo.lock" ] && cp "$lib/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
hnsw_rs = { path = "$lib" }
rayon = "1.10"
libc = "0.2"
serde = { version = "1.0", features = ["derive"] }
EOF
cargo build --offline -q --manifest-path "$t/Cargo.toml" >"$t/log" 2>&1 || { tail -30 "$t/log"; exit 3; }
cd "$t/work" && timeout -k 5 200 "$t/target/debug/demo"
