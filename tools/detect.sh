#!/bin/bash
# tools/detect.sh ID...: applies each planted bug to /repo, runs its property's check, undoes it
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "NOAPPLY $id"; continue; }
  s=$(date +%s); (cd /verif && timeout 900 python3 check.py $p > /tmp/det.out 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -c VIOLATION /tmp/det.out)"
  [ $rc = 2 ] && tail -3 /tmp/det.out
done
