#!/bin/bash
# trybug.sh ID...: apply a planted bug to /repo, run its property's check, undo
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(cd /verif && python3-vt pv/check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(echo "$out" | grep VIOLATION)"
  echo "$out" | grep -v VIOLATION | cut -c1-250 | sed 's/^/    /'
done
