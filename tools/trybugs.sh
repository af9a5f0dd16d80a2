#!/bin/bash
# run the owning check against each seeded bug (in /repo, undone afterwards): trybugs.sh [ids...]
cd /verif
for d in ${@:-$(ls seeded)}; do
 p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d NOAPPLY"; continue; }
 s=$(date +%s); timeout 900 python3-vt check.py $p --tier quick > /tmp/try_$d.log 2>&1; rc=$?; e=$(date +%s)
 git -C /repo checkout -- .
 echo "$d $p rc=$rc $((e-s))s $(grep -c '^VIOLATION' /tmp/try_$d.log) $(grep -m1 '^VIOLATION' /tmp/try_$d.log | cut -c1-120)"
done
