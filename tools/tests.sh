#!/bin/bash
# build /repo and run its tests; report stable tests that fail
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
print("failing stable tests:", sorted(set(b['stable'])-set(o['passed'])))
P
git -C /repo status --short | head -3
