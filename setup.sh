#!/usr/bin/env bash
# Builds the explorer once (every check rebuilds what it needs by itself).
set -eu
V="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="$V/mc/target"
cargo build --release --offline --manifest-path "$V/mc/Cargo.toml"
