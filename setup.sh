#!/bin/bash
# Builds all variants of the explorers from the committed files.
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=1.85.1 CARGO_NET_OFFLINE=true
(cd mc && CARGO_TARGET_DIR=../target/full cargo build --release --offline --locked &&
CARGO_TARGET_DIR=../target/bare cargo build --release --offline --locked --no-default-features) || exit 1
cd thr && RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt" CARGO_TARGET_DIR=../target/thr cargo build --release --offline --locked --target x86_64-unknown-linux-gnu
