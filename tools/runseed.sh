#!/bin/bash
# runseed.sh [ID...] : apply each planted change to /repo, run its property's check, undo
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p > /tmp/seed/run_$id.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id ($p): exit $rc $(grep -E '^VIOLATION' /tmp/seed/run_$id.out) $(tail -1 /tmp/seed/run_$id.out | cut -c1-160)"
done
