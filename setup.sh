#!/bin/bash
# Warm the build: checks rebuild from /repo's working tree by themselves, so this only saves time.
cd "$(dirname "$0")/harness" || exit 1
export CARGO_TARGET_DIR=${CARGO_TARGET_DIR:-$(cd .. && pwd)/target} CARGO_NET_OFFLINE=true
mkdir -p ../evidence
cargo build --offline --quiet --bins 2>/dev/null
cargo build --offline --quiet --bins --features cat 2>/dev/null
cargo build --offline --quiet --features files --bin p17 2>/dev/null
python3 ../tools/run12.py warm >/dev/null 2>&1
exit 0
