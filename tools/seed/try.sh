#!/bin/bash
# try.sh ID: /repo holds the change; store it as seeded/ID/patch.diff, run the tests and the demo with and without it.
id=$1; d=/verif/seeded/$id
cd /repo || exit 1
if ! git diff --quiet; then git diff >"$d/patch.diff"; else git apply "$d/patch.diff" || exit 1; fi
[ -f "$d/demo.sh" ] || cp /verif/tools/seed/demo_rust.sh "$d/demo.sh"
bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1 || { echo "BUILD FAILED"; tail -20 /tmp/seed-build.log; }
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed-test.log 2>&1; tail -1 /tmp/seed-test.log
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def names(x):
    return x
stable=b.get('stable') or b.get('passed') or b.get('tests') or b
passed=set(r.get('passed') or [])
print('lost:', [t for t in stable if t not in passed][:10] if isinstance(stable,list) else 'unknown format')
P
bash "$d/demo.sh" >/tmp/seed-demo1.log 2>&1; a=$?
git checkout -q -- . 
bash /opt/vp/build.sh >/dev/null 2>&1
bash "$d/demo.sh" >/tmp/seed-demo0.log 2>&1; b=$?
echo "$id: demo with patch $a ($(grep -v '^warning' /tmp/seed-demo1.log | tail -3 | tr '\n' ' ')), without $b ($(tail -2 /tmp/seed-demo0.log | tr '\n' ' '))"
git status --short
