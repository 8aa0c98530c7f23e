#!/bin/bash
# builds demo.rs against the engine as built from /repo, and runs it
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
DEPS=/repo/target/debug/deps
R=$(ls -t $DEPS/librust_road_router-*.rlib | head -1)
"$RUSTC" --edition 2021 -Awarnings -C debuginfo=0 -L dependency=$DEPS --extern rust_road_router="$R" -o "$T/demo" "$D/demo.rs" || exit 3
cd "$T" && timeout 120 "$T/demo"
