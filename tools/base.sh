#!/bin/bash
# dev helper: build + stable tests vs BASELINE
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def names(x,k):
    v=x.get(k) or []
    return set(v if isinstance(v,list) else v.keys())
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in o.items()})
base=None
for k,v in b.items():
    if isinstance(v,(list,dict)): base=set(v) if base is None else base
fails=[t for t in base if t not in names(o,'passed')]
print("missing from passed:",fails[:10],len(fails))
P
