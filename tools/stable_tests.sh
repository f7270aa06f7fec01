#!/bin/bash
# Developer helper: build + run the stable tests of /repo and compare with the baseline.
bash /opt/vp/build.sh > /tmp/build.log 2>&1 || { tail -30 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/test_out.json > /tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/test_out.json'))
def names(x,k):
    if isinstance(x,dict):
        for kk in (k,'passed','tests'):
            if kk in x: 
                v=x[kk]; return set(v if isinstance(v,list) else [n for n,s in v.items() if s in (True,'pass','passed')])
    return set(x)
bp=set(b['stable']); op=names(o,'passed')
print('baseline',len(bp),'passed now',len(op),'missing',sorted(bp-op)[:20])
P
