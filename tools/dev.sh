#!/bin/bash
# Build one configuration for development: dev.sh [profile flags]
cd /verif/sim
export RUSTUP_TOOLCHAIN=1.99.1-x86_64-unknown-linux-gnu RUSTC_BOOTSTRAP=1 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/.build/dev
exec cargo build --target x86_64-unknown-linux-gnu "$@"
