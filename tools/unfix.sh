#!/bin/bash
# unfix.sh: for each "fixed" entry, checks that undoing the repair is reported
cd /verif
python3 - <<'P' | while read prop commit; do
import json
for l in json.load(open("/verif/known_findings.json"))["fixed"]:
    w=l.split(); print(w[1].split("=")[1], w[2])
P
  [ -n "$1" ] && [ "$1" != "$commit" ] && [ "$1" != "$prop" ] && continue
  git -C /repo diff $commit $commit^ | git -C /repo apply || { echo "$prop $commit: cannot undo"; continue; }
  timeout 900 python3 driver/check.py $prop >/tmp/unfix.log 2>&1 </dev/null; rc=$?
  git -C /repo checkout -q -- .
  echo "$prop $commit: rc=$rc $(grep -m1 -o 'counterexample.*' /tmp/unfix.log)"
done
