#!/bin/bash
# repo tests: prints PASS/FAIL count vs the stable baseline
bash /opt/vp/test.sh /tmp/vp_out.json >/tmp/vp_test.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/vp_out.json'))
p=set(o['passed']); print('stable passed',len(b&p),'of',len(b),'missing',sorted(b-p))
P
