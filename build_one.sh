#!/bin/bash
# Builds one check binary (c01..c19) in both profiles from the current /repo tree.
# usage: build_one.sh c01 [profile...]
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
BIN="$1"; shift
PROFILES="${*:-checked plain}"
REPO="${MC_REPO:-/repo}"
export CARGO_TARGET_DIR="$ROOT/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$ROOT/target"
exec 9>"$ROOT/target/.lock"
flock 9
# cargo goes by modification times; a changed tree may carry old ones, so go by contents
HASH="$( { cd "$REPO" && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum; cd "$ROOT/mc" && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum; } | sha256sum | cut -d' ' -f1)"
STAMP="$ROOT/target/.srchash"
if [ "$(cat "$STAMP" 2>/dev/null)" != "$HASH" ]; then
  for p in checked plain; do
    for d in "$ROOT/target/$p/.fingerprint"/veb-tree-* "$ROOT/target/$p/.fingerprint"/mc-*; do
      [ -d "$d" ] && rm -rf "$d"
    done
  done
  echo "$HASH" > "$STAMP"
fi
FEAT="$(sed -n 's/^\/\/ features: //p' "$ROOT/mc/src/bin/$BIN.rs" | head -1)"
for p in $PROFILES; do
  if ! ( cd "$ROOT/mc" && cargo build -q --offline --profile "$p" --bin "$BIN" ${FEAT:+--features "$FEAT"} ) >"$ROOT/target/build.$BIN.$p.log" 2>&1; then
    echo "ERROR: $BIN does not build ($p):"
    grep -E '^(error|warning: unused)' -A8 "$ROOT/target/build.$BIN.$p.log" | head -60
    exit 2
  fi
done
exit 0
