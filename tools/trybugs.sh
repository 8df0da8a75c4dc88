#!/bin/bash
# trybugs.sh ID... : apply each planted bug to /repo, run the check of its property, undo. Prints caught/missed.
for s in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  t0=$(date +%s)
  python3 /verif/bin/check.py $p > /verif/work/try-$s.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$s $p rc=$rc $(( $(date +%s) - t0 ))s $(grep -m1 VIOLATION /verif/work/try-$s.log)"
done
