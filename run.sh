#!/bin/bash
# usage: run.sh <PROPERTY> [--replay FILE | --only SCENARIO]
# Builds the check of one property against /repo's current working tree and runs it.
ID=${1:?usage: run.sh PROPERTY}; shift
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$HERE VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0
unset CARGO_PROFILE_DEV_DEBUG
export CARGO_TARGET_DIR=${VERIF_TARGET:-$HERE/target}
CRATE=harness
BIN=$(echo "$ID" | tr A-Z a-z)
[ -f "$HERE/harness/crate_of/$ID" ] && CRATE=$(cat "$HERE/harness/crate_of/$ID")
# this build simplifies travel time functions with more than 3 points
[ $CRATE = harness_ftd ] && export TDCCH_APPROX_THRESHOLD=3 CARGO_TARGET_DIR=$CARGO_TARGET_DIR/ftd
[ $CRATE = harness_holes ] && export CARGO_TARGET_DIR=$CARGO_TARGET_DIR/holes
TARGETS="--bin $BIN"
# these run programs of the repository as processes
case $CRATE in harness_conv|harness_server) TARGETS="--bins";; esac
cd "$HERE/$CRATE" || exit 2
export RUSTFLAGS="--cfg verif_hooks -Awarnings"
LOG=$CARGO_TARGET_DIR/build-$ID.log
mkdir -p "$CARGO_TARGET_DIR" "$HERE/evidence"
if ! cargo build --offline --locked $TARGETS >"$LOG" 2>&1; then
    tail -60 "$LOG"
    echo "build of the check failed (see $LOG)"
    exit 2
fi
ulimit -v 20000000
"$CARGO_TARGET_DIR/debug/$BIN" "$@" 2>"${VERIF_STDERR:-/dev/null}"
RC=$?
if [ $RC -ge 128 ] && [ $RC -ne 130 ] && [ $RC -ne 143 ] && [ $RC -ne 137 ]; then
    mkdir -p "$HERE/replay"
    echo "{\"property\": \"$ID\", \"message\": \"the code under test crashed the process (exit status $RC); the exploration is deterministic: run.sh $ID repeats it\"}" > "$HERE/replay/$ID.json"
    echo "the code under test crashed the process (exit status $RC)"
    echo "VIOLATION property=$ID replay=$HERE/replay/$ID.json"
    exit 1
fi
if [ $RC -eq 101 ]; then
    mkdir -p "$HERE/replay"
    echo "{\"property\": \"$ID\", \"message\": \"the code under test panicked while the check prepared its inputs; the exploration is deterministic: run.sh $ID repeats it\"}" > "$HERE/replay/$ID.json"
    echo "the code under test panicked while the check prepared its inputs"
    echo "VIOLATION property=$ID replay=$HERE/replay/$ID.json"
    exit 1
fi
exit $RC
