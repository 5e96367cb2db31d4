#!/bin/bash
# run.sh PXX quick|thorough: build the monitor of one property against /repo's working tree and run it.
# exit 0: held on everything explored; 1: VIOLATION printed; other: no answer (build failure etc).
ID=$1; TIER=${2:-quick}
cd "$(dirname "$0")/harness" || exit 3
export VERIF_DIR="$(cd .. && pwd)" VERIF_TIER=$TIER VERIF_SEED=${VERIF_SEED:-1}
export CARGO_TARGET_DIR=${CARGO_TARGET_DIR:-$VERIF_DIR/target} CARGO_NET_OFFLINE=true
mkdir -p ../evidence
if [ "$ID" = P12 ]; then timeout ${VERIF_TIMEOUT:-860} python3 ../tools/run12.py; exit $?; fi
bin=$(echo "$ID" | tr 'P' 'p')
feat=""
case $ID in
  P01|P02|P03|P04|P05|P11|P26) feat="--features cat";;
  P17) feat="--features files";;
esac
cargo build --offline --quiet $feat --bin "$bin" 2>"$VERIF_DIR/evidence/$ID.build.log" || { cat "$VERIF_DIR/evidence/$ID.build.log" >&2; echo "build failed for $ID" >&2; exit 3; }
timeout ${VERIF_TIMEOUT:-820} "$CARGO_TARGET_DIR/debug/$bin"
exit $?
