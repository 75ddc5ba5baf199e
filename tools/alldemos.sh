#!/bin/bash
# every planted bug's demo with its patch: prints those that do not fail
t=$(mktemp -d /tmp/demos.XXXXXX); trap 'rm -rf "$t"' EXIT
cp -a /repo "$t/repo"; cd "$t/repo" && git checkout -q -- .
for s in ${@:-$(ls /verif/seeded)}; do
  git apply /verif/seeded/$s/patch.diff || { echo "$s does not apply"; continue; }
  bash /verif/seeded/$s/demo.sh > $t/log 2>&1; rc=$?
  { [ $rc != 0 ] && grep -q "test result: FAILED" $t/log; } || echo "$s: demo $rc $(grep -m1 ^error $t/log)"
  git checkout -q -- .
done
echo done
