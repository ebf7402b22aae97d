#!/bin/bash
# (Re)builds the harness from /repo's current working tree. Cargo decides by modification times;
# where a tree was copied or patched with old times, the content hash below forces the rebuild.
here=$(cd "$(dirname "$0")" && pwd)
source "$here/harness/env.sh"
stamp="$CARGO_TARGET_DIR/repo.hash"
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.pbt-lock"; flock 9
cd "$here/harness" || exit 2
hash=$(cd /repo && find contracts packages Cargo.toml -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -name '*.json' \) -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
crates="-p aggregate-verifier -p batching -p connection-router -p gateway -p multisig -p multisig-prover -p nexus-gateway -p rewards -p service-registry -p voting-verifier -p axelar-wasm-std -p axelar-wasm-std-derive -p connection-router-api -p gateway-api -p report -p pbt"
if [ "$(cat "$stamp" 2>/dev/null)" != "$hash" ] && [ -e "$CARGO_TARGET_DIR/release/pbt" ]; then
    cargo clean --release --offline $crates >/dev/null 2>&1
    rm -f "$CARGO_TARGET_DIR/release/pbt"
fi
log="$CARGO_TARGET_DIR/build.log"
if ! cargo build --release --offline --locked >"$log" 2>&1; then
    # once more from a clean slate for the repository's crates
    cargo clean --release --offline $crates >/dev/null 2>&1
    if ! cargo build --release --offline --locked >"$log" 2>&1; then
        tail -60 "$log" >&2
        echo "harness does not build" >&2
        exit 2
    fi
fi
echo "$hash" >"$stamp"
exit 0
