#!/bin/bash
# Runs the repository's tests and compares with the baseline.
O=$(mktemp); bash /opt/vp/test.sh $O > /tmp/tests.log 2>&1
python3 - $O <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
m=[t for t in b['stable'] if t not in o['passed']]
print('stable',len(b['stable']),'missing',m)
sys.exit(1 if m else 0)
P
r=$?; rm -f $O; exit $r
