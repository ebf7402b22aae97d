#!/bin/bash
# Links the modules of the off-chain worker into this crate: link.sh REPO
# main.rs is the worker's lib.rs, which declares them, followed by the checks.
cd "$(dirname "$0")/src" || exit 2
find . -maxdepth 1 -type l -delete
for p in "$1"/ampd/src/*; do
    n=$(basename "$p")
    case "$n" in lib.rs | main.rs) continue ;; esac
    ln -sfn "$p" "$n"
done
{ echo '#![allow(dead_code, unused_imports)]'; cat "$1/ampd/src/lib.rs"; cat ../main.rs.in; } >main.rs.new
cmp -s main.rs.new main.rs && rm main.rs.new || mv main.rs.new main.rs
