#!/bin/bash
# Builds and runs the demonstration against the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:/root/.cargo/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
export CARGO_TARGET_DIR=$t/target
mkdir -p "$t/src" "$t/w"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$here/common.rs" "$t/src/common.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
jubako = { path = "$repo", features = ["lz4", "lzma", "zstd"] }
uuid = "1"
libc = "0.2"
[profile.dev]
opt-level = 1
T
cd "$t" || exit 3
cargo build --offline > build.log 2>&1 || { tail -20 build.log; exit 3; }
cd "$t/w" && timeout 120 "$t/target/debug/demo"
