#!/bin/bash
# runseed.sh ID... : apply each planted bug to /repo, run its property's check, undo
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: no apply"; continue; }
  s=$(date +%s)
  out=$(timeout 890 bash /verif/check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep VIOLATION | cut -c1-120)"
done
