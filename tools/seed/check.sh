#!/bin/bash
# check.sh ID [PROP...]: run the checks against a planted change.
id=$1; shift
d=/verif/seeded/$id
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
cd /repo && git apply "$d/patch.diff" || exit 1
for p in $props; do (cd /verif && timeout 900 ./check $p >/tmp/seed-check.log 2>&1; echo "$id $p exit $? $(grep -m1 VIOLATION /tmp/seed-check.log | cut -c1-200)"); done
cd /repo && git checkout -q -- .
