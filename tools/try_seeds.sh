#!/bin/bash
# applies each planted bug to /repo, runs its property's quick check, undoes it. usage: try_seeds.sh [id...]
cd /verif
ids=${@:-$(ls seeded)}
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; continue; }
  s=$(date +%s)
  python3 bin/check.py $p > /tmp/try.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -c ^VIOLATION /tmp/try.out) viol; $(grep -m1 '^--- ' /tmp/try.out | cut -c1-150)"
  [ $rc -eq 1 ] || tail -5 /tmp/try.out | cut -c1-400
done
