#!/bin/bash
# Usage: run.sh <property id> | --build
# Builds the harness against /repo's working tree and runs the check of one property.
# VERIF_SEED and VERIF_TIER are taken from the environment.
cd "$(dirname "$0")" || exit 2
export ZV_DIR="$PWD" CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS
log=$(mktemp) || exit 2
if ! cargo build --offline --quiet --manifest-path harness/Cargo.toml >"$log" 2>&1; then
    tail -n 60 "$log" >&2
    rm -f "$log"
    echo "ERROR the harness does not build against /repo"
    exit 2
fi
rm -f "$log"
[ "$1" = "--build" ] && exit 0
exec harness/target/debug/zv check "$1"
