#!/bin/bash
# Compile the harness once, so that the checks only rebuild what changed.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable
export PATH="$PATH:/usr/local/bin:/root/.cargo/bin" CARGO_TARGET_DIR="$PWD/target"
cd harness && cargo build --quiet --offline --locked --profile release && cargo build --quiet --offline --locked --profile plain
