#!/bin/bash
# catch.sh ID...: the check of each planted bug's property, run against /repo with the bug applied (and taken back)
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  timeout 900 python3 check.py $p > /tmp/catch.$id 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$id $p exit $r: $(grep -A1 VIOLATION /tmp/catch.$id | tail -1)"
done
