#!/bin/bash
# runs the check of each seed's property (or the checks given by CHECKS) on the seed, in /repo
cd "$(dirname "$0")/.."
for s in "${@:-$(ls seeded)}"; do for i in $s; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply $PWD/seeded/$i/patch.diff || { echo "$i DOES NOT APPLY"; continue; }
  for c in ${CHECKS:-$p}; do
    o=$(timeout 900 python3 tool/driver.py $c 2>/tmp/seed-err); rc=$?
    echo "$i $c rc=$rc $(echo "$o" | grep VIOLATION) | $(grep -o 'failed obligation: [^ ]*' /tmp/seed-err | sort -u | tr '\n' ' ' | cut -c1-200) $(grep -o 'demoted \[[^]]*\]' /tmp/seed-err | tail -1)"
  done
  git -C /repo checkout -q -- .
done; done
