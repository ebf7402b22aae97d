#!/bin/bash
# quiet.sh [SEEDS..] : runs every check on the current tree with several seeds; prints the ones that do not exit 0
cd "$(dirname "$0")/.."
for s in ${@:-2 3 4 5 6}; do
  for i in $(seq -w 1 50); do
    [ -e harness/target/release/pbt ] || exit 2
    bin=
    for x in ./harness/target/release/pbt ./offchain/target/release/pbt-offchain; do
      $x list | grep -q "^C$i\b" && bin=$x
    done
    [ -n "$bin" ] || continue
    PBT_ROOT=$PWD VERIF_SEED=$s $bin C$i >/tmp/quiet.$$ 2>&1 || { echo "seed $s C$i: rc $?"; tail -3 /tmp/quiet.$$; }
  done
  echo "seed $s done"
done
