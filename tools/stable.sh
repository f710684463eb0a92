#!/bin/bash
# Builds /repo (or $1) and compares its test results with the baseline.
set -e
bash /opt/vp/build.sh > /tmp/verif-build.log 2>&1 || { tail -20 /tmp/verif-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/verif-test.json > /tmp/verif-test.log 2>&1 || true
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/verif-test.json'))
m=[x for x in b['stable'] if x not in set(t['passed'])]
print('stable tests missing:', len(m), m[:5])
PY
