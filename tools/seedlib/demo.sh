#!/bin/bash
# Builds main.rs beside this file against the library in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=nightly-2025-05-01 CARGO_NET_OFFLINE=true HOME=/root PATH=/root/.cargo/bin:$PATH
export CARGO_PROFILE_DEV_OPT_LEVEL=2
unset RUSTC_WRAPPER RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
gpf = { path = "$repo" }
bumpalo = { version = "3.13.0", features = ["collections", "allocator_api"] }
T
cd "$w" || exit 3
export CARGO_TARGET_DIR=$w/target
cargo build --offline -q 2>"$w/log" || { cat "$w/log"; exit 3; }
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
