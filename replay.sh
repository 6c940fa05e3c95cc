#!/bin/bash
# Re-runs the execution a VIOLATION line points at.   usage: replay.sh /verif/replay/C01.json
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
eval "$(python3 - "$1" <<'PY'
import json,sys,shlex
d=json.load(open(sys.argv[1]))
b=d["build"].split("/")[0]
for k,v in dict(ID=d["property"],TIER=d["tier"],BUILD=b,PHASE=d["phase"],IDX=d["index"]).items():
    print(f"{k}={shlex.quote(str(v))}")
PY
)"
BIN="$(echo "$ID" | tr A-Z a-z)"
bash "$ROOT/build_one.sh" "$BIN" "$BUILD" || exit 2
S="$ROOT/target/replay.slots.$$"
"$ROOT/target/$BUILD/$BIN" --range "$TIER" "$S" "$PHASE" "$IDX" "$((IDX + 1))" | tr '\t' '\n' | sed 's/\\n/\n    /g'
rc=${PIPESTATUS[0]}
rm -f "$S"
echo "exit code $rc"
exit "$rc"
