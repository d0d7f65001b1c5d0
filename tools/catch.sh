#!/bin/bash
# catch.sh ID...: runs the property's check with each seeded change applied to /repo, and undoes it.
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  (cd /verif && timeout 900 ./check $p > /tmp/catch-$id.log 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id ($p): rc=$rc $(grep -c '^VIOLATION property='$p /tmp/catch-$id.log) $(grep -v VIOLATION /tmp/catch-$id.log | tail -1 | cut -c1-200)"
done
