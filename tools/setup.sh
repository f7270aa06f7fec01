#!/bin/bash
# Builds the harness crates from the committed files, offline.
cd "$(dirname "$0")/.." || exit 1
. /opt/vp/env.sh 2>/dev/null
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$PWD/target
for c in core scalar editor renderer; do (cd harness/$c && cargo build --offline -q) || exit 1; done
java -version >/dev/null 2>&1 || exit 1
