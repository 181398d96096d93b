#!/bin/bash
# Runs the check of its property against each planted bug (all, or those named).
cd /verif/seeded || exit 1
for id in ${@:-*}; do
  [ -f "$id/patch.diff" ] || continue
  p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  out=$(VERIF_SEED=1 /verif/bin/check "$p" quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id [$p]: exit $rc $(echo "$out" | grep -c '^VIOLATION') | $(echo "$out" | grep -v '^VIOLATION' | head -2 | tr '\n' ' ' | cut -c1-220)"
done
