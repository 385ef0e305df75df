#!/bin/bash
# tools/seed.sh ID [notest] : try seeded/ID against /repo: applies, builds, tests, demo, its property's check; reverts
id=$1; d=/verif/seeded/$id
exec 9>/tmp/seed.lock; flock 9
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
work=$(mktemp -d); cp -a $d/. $work/; rm -f $work/*.diff $work/meta.json
( cd /repo && timeout 300 bash $work/demo.sh >/tmp/seed-demo0.log 2>&1 ); echo "demo unpatched: $?"
git apply $d/patch.diff || { echo APPLY FAILED; exit 1; }
trap 'git -C /repo checkout -q -- .; rm -rf $work' EXIT
( timeout 300 bash $work/demo.sh >/tmp/seed-demo1.log 2>&1 ); echo "demo patched: $?"
if [ "$2" != notest ]; then bash /verif/tools/base.sh | tail -2; fi
cd /verif; ./check $prop --tier quick > /tmp/seed-check.log 2>&1; echo "check $prop: exit $?"; grep -a VIOLATION /tmp/seed-check.log; tail -5 /tmp/seed-check.log | cut -c1-300
