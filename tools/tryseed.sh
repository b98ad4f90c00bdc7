#!/bin/bash
# usage: tryseed.sh ID... : applies each planted change to /repo, runs the tests, its demo and its check, and undoes it
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id in "$@"; do
    d=/verif/seeded/$id
    prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
    bash "$d/demo.sh" > /tmp/demo0.log 2>&1; clean=$?
    git apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
    tests=skipped
    if [ -z "$NOTEST" ]; then
        bash /opt/vp/build.sh > /tmp/b.log 2>&1 || echo "$id: DOES NOT BUILD"
        bash /opt/vp/test.sh /tmp/t.json > /dev/null 2>&1
        tests=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/t.json'))
m=set(b['stable'])-set(t['passed'])
print('pass' if not m else 'FAIL %s'%m)")
    fi
    bash "$d/demo.sh" > /tmp/demo1.log 2>&1; bad=$?
    s=$(date +%s)
    (cd /verif && bash bin/check.sh "$prop" quick) > /tmp/check.log 2>&1; rc=$?
    e=$(date +%s)
    git checkout -q -- .
    echo "$id $prop: tests $tests, demo clean=$clean patched=$bad, check exit $rc in $((e-s))s: $(grep -E '^what|VIOLATION' /tmp/check.log | head -2 | cut -c1-200 | tr '\n' ' ')"
done
