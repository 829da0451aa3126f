#!/bin/bash
# Builds the harness against /repo's working tree, offline.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
unset CARGO_TARGET_DIR RUSTFLAGS
mkdir -p evidence replays
(cd harness && cargo build --offline) 2>&1 | tail -3
export VERIF_ROOT=$(pwd) VERIF_REPO=${VERIF_REPO:-/repo}
C18_BUILD_ONLY=1 timeout 1200 python3 tools/c18.py
[ -x harness/target/debug/verif-harness ]
