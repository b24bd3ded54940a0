#!/bin/bash
# builds the harness and the extractor from the committed files, offline
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
(cd harness && RUSTFLAGS="--cfg vp_hooks -Awarnings" CARGO_TARGET_DIR=../target cargo build --offline --release) || exit 1
[ -d tools/vx ] && { (cd tools/vx && CARGO_TARGET_DIR=../../target/vx cargo build --offline --release) || exit 1; }
exit 0
