#!/bin/bash
# builds /repo and runs its stable tests
bash /opt/vp/build.sh >/tmp/stable.build 2>&1 || { tail -20 /tmp/stable.build; exit 1; }
bash /opt/vp/test.sh /tmp/stable.json >/tmp/stable.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/stable.json'))
st=b.get('stable') or b.get('passed') or b
ps=set(r.get('passed',[]))
miss=[t for t in st if t not in ps]
print('missing:',miss, 'passed',len(ps)); raise SystemExit(bool(miss))
P
