#!/bin/bash
# tryseeds.sh [ID...]: apply each planted bug to /repo, run its property's quick check, undo.
cd "$(dirname "$0")/.."
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
for id in ${*:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep -m1 '^VIOLATION' || echo "$out" | tail -3)"
done
