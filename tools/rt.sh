#!/bin/bash
# rebuild /repo and run its own tests; report any baseline test that does not pass
bash /opt/vp/build.sh >/tmp/rt.log 2>&1 || { tail -30 /tmp/rt.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >>/tmp/rt.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/rt.json'))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if isinstance(x,dict) and k in x: return set(x[k])
    return set(x) if isinstance(x,list) else set(k for k,v in x.items() if v in('pass','passed',True))
want=names(b); got=names(r); m=want-got
print(len(want),'baseline',len(got),'passed; missing',sorted(m)[:10]); exit(1 if m else 0)
P
