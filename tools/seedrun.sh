#!/bin/bash
# development: run each planted bug's own check against it.  seedrun.sh [id...]
cd /verif
ids=${@:-$(ls seeded)}
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply seeded/$i/patch.diff 2>/dev/null || git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: patch does not apply"; continue; }
  t=$(date +%s)
  out=$(./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(( $(date +%s) - t ))s $(echo "$out" | grep VIOLATION)"
  echo "$out" | grep "violation:\|no symbolic" | head -2 | cut -c1-200
done
