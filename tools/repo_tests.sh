#!/bin/bash
# Runs the repository's tests and reports stable ones which fail.
bash /opt/vp/test.sh /tmp/t.json > /tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/t.json'))['passed']
m=[x for x in b if x not in set(t)]
print('missing', len(m), m[:10])
P
