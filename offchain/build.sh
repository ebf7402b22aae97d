#!/bin/bash
# (Re)builds the checks of the off-chain worker from /repo's current working tree, see ../build.sh.
here=$(cd "$(dirname "$0")" && pwd)
export PBT_TARGET="${PBT_OFFCHAIN_TARGET:-$here/target}"
source "$here/../harness/env.sh"
stamp="$CARGO_TARGET_DIR/repo.hash"
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.pbt-lock"; flock 9
cd "$here" || exit 2
hash=$(cd /repo && find ampd contracts packages Cargo.toml -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -name '*.json' -o -name '*.proto' \) -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
crates="-p aggregate-verifier -p batching -p connection-router -p gateway -p multisig -p multisig-prover -p nexus-gateway -p rewards -p service-registry -p voting-verifier -p axelar-wasm-std -p axelar-wasm-std-derive -p connection-router-api -p gateway-api -p report -p events -p events-derive -p pbt-offchain"
./link.sh /repo || exit 2
if [ "$(cat "$stamp" 2>/dev/null)" != "$hash" ] && [ -e "$CARGO_TARGET_DIR/release/pbt-offchain" ]; then
    cargo clean --release --offline $crates >/dev/null 2>&1
    rm -f "$CARGO_TARGET_DIR/release/pbt-offchain"
fi
log="$CARGO_TARGET_DIR/build.log"
if ! cargo build --release --offline --locked >"$log" 2>&1; then
    cargo clean --release --offline $crates >/dev/null 2>&1
    if ! cargo build --release --offline --locked >"$log" 2>&1; then
        tail -60 "$log" >&2
        echo "the checks of the off-chain worker do not build" >&2
        exit 2
    fi
fi
echo "$hash" >"$stamp"
exit 0
