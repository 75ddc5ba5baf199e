#!/bin/bash
# every planted bug against its property's check, in the scratch copy /tmp/r
cd /verif
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /tmp/r apply /verif/seeded/$s/patch.diff || { echo "$s does not apply"; continue; }
  timeout 300 python3 an/check.py $p --repo /tmp/r > /tmp/o.seed 2>&1; rc=$?
  [ $rc = 1 ] || echo "$s $p rc=$rc $(tail -1 /tmp/o.seed | cut -c1-200)"
  git -C /tmp/r checkout -q -- .
done
