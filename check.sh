#!/bin/bash
# Decides one property on the current /repo tree.   usage: check.sh C01 [quick|thorough]
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
ID="$1"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" MC_ROOT="$ROOT" RUST_BACKTRACE=0
BIN="$(echo "$ID" | tr A-Z a-z)"
bash "$ROOT/build_one.sh" "$BIN" || exit 2
export MC_PLAIN="$ROOT/target/plain/$BIN"
exec "$ROOT/target/checked/$BIN" "$VERIF_TIER"
