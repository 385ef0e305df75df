#!/bin/bash
# run the repository's tests and compare with the baseline (stable tests only)
bash /opt/vp/build.sh >/dev/null || { echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/base-out.json > /tmp/base-out.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=json.load(open('/tmp/base-out.json'))
p=set(o['passed'])
miss=sorted(b-p)
print('stable %d, missing %d'%(len(b),len(miss)))
for m in miss: print('  MISSING',m)
P
