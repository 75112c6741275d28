#!/bin/bash
# tools/confirm.sh ID...: build, stable tests, demo with and without, own check. Leaves /repo unchanged.
for id in "$@"; do
d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
crate=$(python3 -c "import json;print([c['quick_cmd'].split()[1] for c in json.load(open('/verif/MANIFEST.json'))['checks'] if c['property']=='$p'][0])")
(cd /repo && sh $d/demo.sh >/tmp/demo0.log 2>&1); d0=$?
git -C /repo apply $d/patch.diff || { echo "$id APPLY FAILED"; continue; }
bash /opt/vp/build.sh >/tmp/b.log 2>&1; b=$?
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
t=$(python3 - <<P
import json
base=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/t.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('stable','passed','pass','tests'):
            if k in x: return set(x[k] if isinstance(x[k],list) else [n for n,v in x[k].items() if v in ('pass','passed','ok',True)])
    return set()
m=names(base)-names(r); print(len(names(base)),'missing',sorted(m)[:3])
P
)
(cd /repo && sh $d/demo.sh >/tmp/demo1.log 2>&1); d1=$?
r=$(cd /verif && bin/check $crate $p quick 2>&1 | tail -14); c=$?
echo "$r" | grep -q '^VIOLATION' && v=CAUGHT || v=MISSED
git -C /repo checkout -- .
echo "== $id $p build=$b tests[$t] demo clean=$d0 patched=$d1 check=$v"; echo "$r" | grep -E "^violation|^ok|panicked" | cut -c1-220
done
