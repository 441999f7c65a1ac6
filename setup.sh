#!/bin/bash
# Builds the framework from the committed files, offline (each check rebuilds what it needs anyway).
cd "$(dirname "$0")" || exit 2
root=$PWD
. "$root/env.sh"
mkdir -p evidence replays build
export RUSTC_WRAPPER="$root/sancov-rustc.sh" CARGO_TARGET_DIR="$root/build/target"
cd harness && cargo build --offline -q --locked
