#!/usr/bin/env bash
# Runs the explorer of heap values under the Miri interpreter (see heap.rs), with the given arguments.
M="$(cd "$(dirname "$0")" && pwd)"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
# A block is reached through a reference to its header, and boxed values keep addresses as numbers.
export MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-permissive-provenance -Zmiri-ignore-leaks -Zmiri-disable-isolation"
bin="${MIRI_BIN:-val}" target=miri
if [ "$bin" = arena ]; then
  export RUSTFLAGS="--cfg nanvm_verif"
  target=miri-hook
fi
exec cargo miri run -q --offline --manifest-path "$M/Cargo.toml" --target-dir "$M/target/$target" --bin "$bin" -- "$@"
