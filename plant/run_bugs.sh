#!/bin/bash
# run_bugs.sh [ID...]: applies each planted change to /repo, runs the quick check of its property and undoes it
ids="$*"; [ -n "$ids" ] || ids=$(ls /verif/seeded)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i DOES NOT APPLY"; continue; }
  s=$(date +%s)
  VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 python3 /verif/check.py $p quick > /tmp/bug.$i.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(grep -h VIOLATION /tmp/bug.$i.log | head -2 | cut -c1-150 | tr '\n' ' ')"
done
