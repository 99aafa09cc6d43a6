#!/bin/bash
# Apply each planted bug to /repo in turn, run its property's quick check (or the one given), undo.
cd /verif
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  timeout 900 python3 check.py $p quick > /tmp/runseed.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$s $p exit $rc $(grep -m1 -B1 VIOLATION /tmp/runseed.log | head -1)"
done
