#!/bin/bash
# catch.sh ID...: runs the property's check against a planted bug
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || continue
  timeout 900 python3 driver/check.py $p >/tmp/catch.$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id ($p): rc=$rc $(grep -c ^VIOLATION /tmp/catch.$id.log) violation lines; $(grep -m1 counterexample /tmp/catch.$id.log)"
done
