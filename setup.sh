#!/bin/bash
# builds the tools offline; every check builds what it needs itself if this was not run
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS
mkdir -p build evidence
(cd tools/extract && CARGO_TARGET_DIR=../../build/extract cargo build --offline --release -q) || exit 1
(cd harness && CARGO_TARGET_DIR=../build/harness RUSTFLAGS="--cfg ginko_verif" cargo build --offline -q) || exit 1
(cd ../repo && CARGO_TARGET_DIR="$OLDPWD/build/bins" cargo build --offline -q --bins) || exit 1
exit 0
