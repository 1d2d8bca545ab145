#!/bin/bash
# Applies each planted bug (or those named) to /repo, runs its property's check, undoes it.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p > /tmp/seed_$d.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(( $(date +%s) - s ))s $(grep -c ^VIOLATION /tmp/seed_$d.log) $(grep -m1 ^VIOLATION /tmp/seed_$d.log)"
done
