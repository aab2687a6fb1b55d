#!/bin/bash
# builds /repo, runs its tests, prints stable tests that no longer pass
bash /opt/vp/build.sh >/tmp/fixbuild.log 2>&1 || { tail -20 /tmp/fixbuild.log; echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/fixtest.json >/tmp/fixtest.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/fixtest.json'))
def names(x,k):
    v=x.get(k); 
    return set(v) if isinstance(v,list) else set(v or {})
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in b.items()}, {k:(len(v) if hasattr(v,'__len__') else v) for k,v in o.items()})
st=None
for k in ('stable','passed','pass','tests'):
    if k in b: st=set(b[k]); break
pa=None
for k in ('passed','pass'):
    if k in o: pa=set(o[k]); break
print("MISSING", sorted(st-pa)[:20])
P
