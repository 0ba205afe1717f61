#!/bin/bash
# Runs the repository's tests and compares with the stable baseline.
bash /opt/vp/test.sh /tmp/regress.json >/tmp/regress.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/regress.json'))
def names(x):
    for k in ('stable','passed','pass','tests'):
        if k in x: return set(x[k])
    raise SystemExit(str(list(x)))
p=names(r); s=names(b)
print('missing from stable:', sorted(s-p)[:20], len(s), len(p))
P
