#!/bin/bash
# catch.sh ID...: applies each planted bug to /repo, runs the check of its property, undoes it
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(VERIF_SEED=${VERIF_SEED:-1} python3 run.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -c ^VIOLATION) $(echo "$out" | tail -1)"
  [ $rc -gt 1 ] && echo "$out" | tail -20
done
