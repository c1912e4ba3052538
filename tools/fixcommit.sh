#!/bin/bash
# fixcommit.sh PROP "what failed" : test, commit the working-tree change of /repo as a fix, record it.
set -e
p=$1; msg=$2
bash /opt/vp/test.sh /tmp/fixtest.json >/tmp/fixtest.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/fixtest.json'))
base=b['stable']

miss=[t for t in base if t not in set(r['passed'])]
print('baseline',len(base),'missing',miss[:5])
assert not miss
P
git -C /repo commit -qam "fix: $msg"
h=$(git -C /repo rev-parse --short HEAD)
echo "fixed: property=$p $h $msg" >> /verif/known_findings.txt
git -C /repo status --short | head
echo committed $h
