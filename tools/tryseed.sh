#!/bin/bash
# tryseed.sh ID [CHECK...]: demo on the clean tree, then patch a scratch copy: demo fails, checks run; FULL=1 runs the whole real test suite too
id=$1; shift
d=/verif/seeded/$id
t=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$t"' EXIT
cp -a /repo "$t/repo"; cd "$t/repo" && git checkout -q -- . 
if [ -z "$SKIPDEMO" ]; then bash $d/demo.sh > $t/log 2>&1; rc=$?; echo "demo clean: $rc"; [ $rc = 0 ] || tail -20 $t/log; fi
git apply $d/patch.diff || exit 1
if [ -z "$SKIPDEMO" ]; then bash $d/demo.sh > $t/log 2>&1; rc=$?; echo "demo patched: $rc"; [ $rc = 0 ] && tail -20 $t/log; grep -n "^error" $t/log | head; fi
if [ -n "$FULL" ]; then
  export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
  python3 /verif/tools/mkws.py /tmp/fullws "$t/repo" 2 && (cd /tmp/fullws && cargo +1.90.0 test --offline -q --workspace --no-fail-fast 2>&1 | grep -E "^test result|FAILED|panicked|^error" | sort | uniq -c | head -20)
fi
cd /verif
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for c in ${@:-$p}; do python3 an/check.py $c --repo "$t/repo" | tail -4; done
