#!/bin/bash
# run /repo's tests and compare with the baseline list
bash /opt/vp/test.sh /tmp/vp_test_out.json >/tmp/vp_test.log 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/vp_test_out.json'))
exp=b.get('passed') or b.get('stable') or b
exp=set(exp if isinstance(exp,list) else exp)
p=set(o['passed'])
print('baseline',len(exp),'passed',len(p),'missing',sorted(exp-p), 'failed', o['failed'])
PY
