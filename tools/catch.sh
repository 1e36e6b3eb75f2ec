#!/bin/bash
# catch.sh ID... - apply each planted bug to /repo, run the check of its property, undo it
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  trap 'git -C /repo checkout -- .' EXIT
  /verif/check.py $p > /tmp/catch_$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(grep -c ^VIOLATION /tmp/catch_$id.log) $(grep ^VIOLATION /tmp/catch_$id.log | grep -c no-failing) | $(grep -E 'violated|refuted' /tmp/catch_$id.log | head -2 | tr '\n' ';' | cut -c1-300)"
done
