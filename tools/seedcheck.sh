#!/bin/bash
# seedcheck.sh [ID ...]: applies each planted bug to /repo, runs its property's quick check, and undoes it.
cd "$(dirname "$0")/.." || exit 2
for i in ${*:-$(ls seeded)}; do
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || continue
  s=$(date +%s)
  out=$(timeout 900 python3 check.py $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep VIOLATION | head -1)"
  [ $rc = 1 ] || echo "$out" | tail -3
done
