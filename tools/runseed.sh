#!/bin/bash
# runseed.sh ID...: applies each planted bug, runs its property's quick check, undoes it (development aid).
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id apply failed"; continue; }
  s=$(date +%s)
  /verif/check $p > /tmp/rs_$id.txt 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/rs_$id.txt | cut -c1-150)"
done
