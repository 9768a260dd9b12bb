#!/bin/bash
# Confirm one planted bug: tools/plant.sh ID [PROPERTY]   (applies seeded/ID/patch.diff to /repo, and always undoes it)
# 1 demo passes on the clean build, 2 with the patch: builds, stable tests pass, demo fails, 3 the check of the property reports it
ID=$1; S=/verif/seeded/$ID
P=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
bash /opt/vp/build.sh >/tmp/plant.log 2>&1 || { echo "clean build failed"; exit 2; }
(cd /repo && timeout 300 bash $S/demo.sh >/tmp/plant.demo0 2>&1) || { echo "DEMO FAILS ON THE CLEAN TREE"; tail -5 /tmp/plant.demo0; exit 2; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/tmp/plant.log 2>&1' EXIT
git -C /repo apply $S/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/plant.log 2>&1 || { echo "does not build"; grep -A8 '^error' /tmp/plant.log | head -30; exit 2; }
bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.log 2>&1
python3 - <<'PY'
import json
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/plant.json'))
def passed(d):
    for k in ('passed', 'stable', 'tests', 'pass'):
        if k in d:
            v = d[k]
            return set(v if isinstance(v, list) else [t for t, r in v.items() if r in ('pass', 'passed', True)])
    return set(d)
m = sorted(passed(b) - passed(o))
print("tests: all stable tests pass" if not m else f"TESTS BROKEN: {m[:6]}")
PY
(cd /repo && timeout 300 bash $S/demo.sh >/tmp/plant.demo 2>&1) && echo "DEMO STILL PASSES" || echo "demo: fails as it must: $(tail -1 /tmp/plant.demo | cut -c1-200)"
for p in $P; do
    timeout 900 python3 -B /verif/checks/run.py $p quick >/tmp/plant.out 2>&1; rc=$?
    echo "check $p: exit $rc, $(grep -c '^VIOLATION' /tmp/plant.out) violation lines; $(grep -m1 '^VIOLATION' /tmp/plant.out | cut -c1-160)"
    grep -m1 -A3 -i 'became\|instead of' /tmp/plant.out | head -3 | cut -c1-300
done
