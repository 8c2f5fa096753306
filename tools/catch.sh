#!/bin/bash
# developer helper: catch.sh ID...: apply each planted bug to /repo, run its property's quick check, undo
cd /verif
for id in "$@"; do id=$(basename seeded/$id*)
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; continue; }
  s=$(date +%s); out=$(timeout 900 python3 driver/check.py $p ${TIER:-quick} 2>&1); rc=$?; e=$(date +%s)
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $((e-s))s $(echo "$out" | grep -m1 VIOLATION | cut -c1-150)"
  [ $rc = 1 ] || echo "$out" | tail -5 | cut -c1-300
done
