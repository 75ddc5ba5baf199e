#!/bin/bash
# realtest.sh ID: the repository's own build and stable tests with the planted change applied to /repo, which is restored after.
git -C /repo apply /verif/seeded/$1/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh > /tmp/rt.log 2>&1 || { echo build fails; tail -5 /tmp/rt.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json > /tmp/rt2.log 2>&1; grep -E "^test .*FAILED|panicked at" /tmp/rt2.log; grep -c '\.\.\. ok' /tmp/rt2.log
