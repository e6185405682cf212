#!/bin/bash
# seedtest.sh ID [CHECK...]: does the planted bug build, pass the tests, fail its demo, and which checks see it?
# Applies the patch to /repo and undoes it afterwards.
id=$1; shift
D=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 1
git diff --quiet || { echo "repo dirty"; exit 1; }
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
git apply $D/patch.diff || { echo "PATCH FAILS"; exit 1; }
bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1 || { echo "BUILD FAILS"; tail -20 /tmp/seed-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/seed-t.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed-t.json'))
base=set(b['stable']) if isinstance(b,dict) else set(b)
lost=base-set(t['passed'])
print("TESTS", "ok" if not lost else f"LOST {sorted(lost)[:5]}")
P
rm -rf /tmp/seed-demo; cp -r $D /tmp/seed-demo; rm -f /tmp/seed-demo/patch.diff /tmp/seed-demo/meta.json
(cd /repo; timeout 300 bash /tmp/seed-demo/demo.sh >/tmp/seed-demo.log 2>&1); echo "DEMO with patch: $? (want nonzero) $(tail -1 /tmp/seed-demo.log)"
for c in ${@:-$prop}; do
  (cd /verif; timeout 900 python3 check.py $c >/tmp/seed-check-$c.log 2>&1; echo "CHECK $c: $? $(grep -c ^VIOLATION /tmp/seed-check-$c.log) $(grep -A1 ^VIOLATION /tmp/seed-check-$c.log | sed -n 2p | cut -c1-150)")
done
undo
bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1
(cd /repo; timeout 300 bash /tmp/seed-demo/demo.sh >/tmp/seed-demo2.log 2>&1); echo "DEMO without: $? (want 0) $(tail -1 /tmp/seed-demo2.log)"
