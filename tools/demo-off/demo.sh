#!/bin/bash
# Compiles the off-chain worker of the repository in the current directory, with stand-ins for the crates that
# are not available offline, together with demo.rs, and runs it: 0 if the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
export RUSTFLAGS="--cfg tracing_unstable"
export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.71.1 RUSTUP_AUTO_INSTALL=0 CARGO_NET_OFFLINE=true
d=$(mktemp -d /tmp/vpdemo.XXXXXXXX) || exit 3
mkdir -p "$d/src"
cp -r "$here/stubs" "$d/stubs"
sed -i "s|/repo/|$repo/|" "$d"/stubs/*/Cargo.toml
cp "$here/demo.rs" "$here/axelar.rs" "$here/sim.rs" "$d/src/"
cp "$here/Cargo.lock" "$d/"
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" >"$d/Cargo.toml"
for p in "$repo"/ampd/src/*; do
    n=$(basename "$p")
    case "$n" in lib.rs | main.rs) continue ;; esac
    cp -r "$p" "$d/src/$n"
done
{
    echo '#![allow(dead_code, unused_imports)]'
    cat "$repo/ampd/src/lib.rs"
    printf 'mod axelar;\nmod demo;\nmod sim;\nfn main() {\n    demo::main()\n}\n'
} >"$d/src/main.rs"
cd "$d" || exit 3
CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}" cargo run -q --offline
rc=$?
cd /
case "$d" in /tmp/vpdemo.????????) rm -rf "$d" ;; esac
exit $rc
