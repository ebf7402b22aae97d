#!/bin/bash
# Builds main.rs against the repository in the current directory and runs it: 0 if the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.71.1 RUSTUP_AUTO_INSTALL=0 CARGO_NET_OFFLINE=true
d=$(mktemp -d /tmp/vpdemo.XXXXXXXX) || exit 3
mkdir -p "$d/src"
cp "$here/main.rs" "$here/sys.rs" "$d/src/"
cp "$here/Cargo.lock" "$d/"
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" >"$d/Cargo.toml"
cd "$d" || exit 3
CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}" cargo run -q --offline
rc=$?
cd /
case "$d" in /tmp/vpdemo.????????) rm -rf "$d" ;; esac
exit $rc
