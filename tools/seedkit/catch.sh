#!/bin/bash
# usage: catch.sh ID [CHECK..]   applies seeded bug ID to /repo, runs the checks (default: its property's), restores
set -u; out=$(mktemp)
id=$1; shift; d=/verif/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ $# -gt 0 ] || set -- "$p"
cd /repo; git diff --quiet || { echo dirty; exit 1; }
git apply "$d/patch.diff" || exit 1
for c in "$@"; do
  s=$SECONDS; timeout 900 /verif/run "$c" > "$out" 2>&1; rc=$?
  echo "$id $c rc=$rc $((SECONDS-s))s $(grep -m1 VIOLATION "$out")"; [ -n "${SHOW:-}" ] && tail -8 "$out"
done
git checkout -q -- .
rm -f "$out"
