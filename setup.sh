#!/bin/bash
# checks build everything they need themselves (their sandboxes are fresh copies); this only proves that the builds work
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR
RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=build/vx cargo build --offline --release -q --manifest-path tools/vx/Cargo.toml || exit 1
RUSTUP_TOOLCHAIN=1.98.1 CARGO_TARGET_DIR=build/dep cargo build --offline -q --manifest-path tools/dep/Cargo.toml || exit 1
RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=build/replay cargo build --offline -q --manifest-path replay/Cargo.toml || exit 1
RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=build/replay23 cargo build --offline -q --manifest-path replay23/Cargo.toml || exit 1
