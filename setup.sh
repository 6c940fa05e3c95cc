#!/bin/bash
# Builds every check in both profiles, offline.
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
for f in "$ROOT"/mc/src/bin/c*.rs; do
  bash "$ROOT/build_one.sh" "$(basename "$f" .rs)" || exit 2
done
echo "setup done"
