#!/bin/bash
# tryseed.sh ID...: confirm planted bugs: builds, stable tests pass, demo fails with / passes without, and whether the check catches it
for ID in "$@"; do
S=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
git -C /repo apply $S/patch.diff || { echo "$ID: patch does not apply"; continue; }
B=ok; T=ok; D=ok; C=MISSED
if [ -z "$SKIPBUILD" ]; then
bash /opt/vp/build.sh >/tmp/seed.$ID.build 2>&1 || B=FAIL
bash /opt/vp/test.sh /tmp/seed.$ID.json >/tmp/seed.$ID.test 2>&1
python3 - <<PY || T=FAIL
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];p=set(json.load(open('/tmp/seed.$ID.json'))['passed'])
m=[x for x in b if x not in p]
print("failing stable tests:",m) if m else None
sys.exit(1 if m else 0)
PY
(cd /repo && bash $S/demo.sh >/tmp/seed.$ID.demo 2>&1) && D="STILL-PASSES"
fi
python3 /verif/check.py $P >/tmp/seed.$ID.check 2>&1; rc=$?
[ $rc = 1 ] && grep -q "VIOLATION property=$P" /tmp/seed.$ID.check && C=caught
[ $rc = 2 ] && C="ERROR"
git -C /repo checkout -- .
D0=-
if [ -z "$SKIPBUILD" ]; then
bash /opt/vp/build.sh >/tmp/seed.$ID.build0 2>&1
(cd /repo && bash $S/demo.sh >/tmp/seed.$ID.demo0 2>&1) && D0=ok || D0=FAIL
fi
echo "$ID property=$P build=$B tests=$T demo-with=$D demo-without=$D0 check=$C"
done
