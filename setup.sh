#!/bin/bash
# Builds the harness once, offline.
export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
cd "$(dirname "$0")" || exit 1
export CARGO_TARGET_DIR="$PWD/target"
exec cargo build --offline --manifest-path harness/Cargo.toml
