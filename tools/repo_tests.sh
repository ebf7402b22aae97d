#!/bin/bash
# runs the repository's own test suite and compares with the baseline
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
r=json.load(open('/tmp/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
p=set(r['passed']);s=set(b['stable'])
print("passed",len(p),"failed",r['failed'],"lost",sorted(s-p))
P
