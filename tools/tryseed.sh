#!/bin/bash
# tryseed.sh ID...: applies each planted bug to /repo, builds, runs the stable tests, the demonstration and the check; undoes it.
for id in "$@"; do
    s=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
    git -C /repo checkout -q -- .
    if [ -z "$NOCLEAN" ]; then bash /opt/vp/build.sh > /tmp/seed.log 2>&1; (cd /repo && bash $s/demo.sh > /tmp/seed.demo0 2>&1); c=$?; fi
    git -C /repo apply $s/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
    bash /opt/vp/build.sh > /tmp/seed.log 2>&1; b=$?
    if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/seed.json > /tmp/seed.tests 2>&1; t=$(python3 - <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def names(x):
    for k in ('stable','passed','tests','pass'):
        if isinstance(x,dict) and k in x: return set(x[k] if not isinstance(x[k],dict) else [n for n,v in x[k].items()])
    return set()
p=names(r); m=[n for n in names(b) if n not in p]
print(f"tests-failing={len(m)} {m[:3]}")
X
); fi
    (cd /repo && bash $s/demo.sh > /tmp/seed.demo 2>&1); e=$?
    st=$(date +%s); python3 /verif/tools/check.py $p quick > /tmp/seed.check 2>&1; k=$?; en=$(date +%s)
    git -C /repo checkout -q -- .
    echo "$id $p: build=$b clean-demo=$c $t demo=$e check=$k ($((en-st)) s) $(grep -m1 VIOLATION /tmp/seed.check)"
done
