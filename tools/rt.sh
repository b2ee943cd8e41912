#!/bin/bash
bash /opt/vp/test.sh /tmp/o.json >/tmp/rt.log 2>&1
python3 - <<'E'
import json
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
p=set(o['passed']); s=set(b['stable'])
print('passed',len(p),'missing stable:',sorted(s-p),'now passing:',sorted(p-s))
E
git -C /repo status --short
