#!/bin/bash
# developer helper: run the repository's stable tests and list what broke
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def passed(x):
    for k in ("passed","pass","stable"):
        if k in x: return set(x[k])
    return None
bp,tp=passed(b),passed(t)
if bp is None: print(list(b)[:5], list(t)[:5]); raise SystemExit(1)
miss=sorted(bp-tp)
print(len(bp),len(tp),"missing",len(miss)); print("\n".join(miss[:20]))
PY
