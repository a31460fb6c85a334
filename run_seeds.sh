#!/bin/bash
# development aid: run_seeds.sh [ids]  applies each planted change to /repo, runs its property's check, undoes it
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d noapply"; continue; }
  python3 check.py $p quick > /tmp/seed-$d.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(grep -c VIOLATION /tmp/seed-$d.out)"
done
