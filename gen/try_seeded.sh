#!/bin/bash
# try_seeded.sh ID...: applies each planted bug to /repo, runs its property's check, undoes it.
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  t=$(date +%s); out=$(cd /verif && ./run.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-t ))s $(echo "$out" | grep -m1 VIOLATION)"
done
