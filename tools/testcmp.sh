#!/bin/bash
# compare the stable tests with a fresh run of the project's tests
bash /opt/vp/test.sh /tmp/t.json > /dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
print('stable', len(b['stable']), 'lost:', sorted(set(b['stable'])-set(t['passed'])))
print('newly passing:', sorted(set(t['passed'])-set(b['stable'])))
P
