#!/bin/bash
# runs the repository's tests and compares with the baseline
bash /opt/vp/test.sh /tmp/vf-suite.json 2>&1 | tail -1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/vf-suite.json'))
st=set(b['stable']) if not isinstance(b['stable'],dict) else set(b['stable'])
print('stable tests not passing:', sorted(st-set(t['passed']))[:20])
P
