#!/bin/bash
# developer helper: run the repository's tests and compare with the baseline
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; tail -2 /tmp/t.log
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
p=set(t['passed']); s=set(b['stable'] if isinstance(b['stable'],list) else b['stable'])
print('missing', sorted(s-p)[:10], len(s-p), 'still failing', t['failed'])
P
