#!/bin/bash
# build + stable tests of /repo; prints baseline tests that do not pass
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','tests','stable','pass'):
            if k in x:
                return set(x[k])
    return set(x)
print('missing', sorted(names(b)-names(t))[:20], len(names(b)), len(names(t)))
P
