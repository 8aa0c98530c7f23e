#!/bin/bash
# builds everything the checks need (each check rebuilds what changed in /repo)
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$HERE
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0 RUSTFLAGS="--cfg verif_hooks -Awarnings"
unset CARGO_PROFILE_DEV_DEBUG
export CARGO_TARGET_DIR=${VERIF_TARGET:-$HERE/target}
cd "$HERE/harness" && cargo build --offline --locked --bins || exit 1
cd "$HERE/harness_ftd" && TDCCH_APPROX_THRESHOLD=3 CARGO_TARGET_DIR=$CARGO_TARGET_DIR/ftd cargo build --offline --locked --bins || exit 1
cd "$HERE/harness_holes" && CARGO_TARGET_DIR=$CARGO_TARGET_DIR/holes cargo build --offline --locked --bins || exit 1
cd "$HERE/harness_conv" && cargo build --offline --locked --bins || exit 1
cd "$HERE/harness_server" && cargo build --offline --locked --bins || exit 1
