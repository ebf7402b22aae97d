#!/bin/bash
# Builds the property-based testing harness against /repo's working tree, offline.
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
offchain/build.sh || echo "C33 and the following checks will not run" >&2
exit 0
