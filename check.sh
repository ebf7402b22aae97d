#!/bin/bash
# check.sh <property id> : rebuilds from /repo and runs the check (VERIF_SEED, VERIF_TIER)
here=$(cd "$(dirname "$0")" && pwd)
export PBT_ROOT="$here"
case "$1" in C33|C34|C35|C36|C37|C39|C40|C41) off=1 ;; *) off= ;; esac
if [ -n "$off" ]; then
    # the off-chain worker
    "$here/offchain/build.sh" || exit 2
    exec "${PBT_OFFCHAIN_TARGET:-$here/offchain/target}/release/pbt-offchain" "$@"
fi
"$here/build.sh" || exit 2
source "$here/harness/env.sh"
exec "$CARGO_TARGET_DIR/release/pbt" "$@"
