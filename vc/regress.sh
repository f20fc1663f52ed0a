#!/bin/sh
# rebuild /repo and compare the stable tests with the baseline
bash /opt/vp/build.sh > /tmp/build.log 2>&1 || { tail -30 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json > /tmp/test.log 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
s=set(b['stable']); p=set(t['passed'])
print('stable', len(s), 'broken', sorted(s-p))
PY
