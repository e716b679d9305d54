#!/bin/bash
# seedtest.sh ID [nocheck]: confirms a planted bug (tests pass, demo discriminates) and runs its check
cd /verif/seeded/$1 || exit 2
P=$(python3 -c "import json;print(json.load(open('meta.json'))['property'])")
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo apply $PWD/patch.diff || { echo "patch does not apply"; exit 2; }
if [ "$2" != fast ]; then
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.log 2>&1
python3 - <<'X'
import json
try:
    o=json.load(open('/tmp/seed.json'));b=json.load(open('/opt/vp/BASELINE.json'))
    print("tests:",len(o['passed']),"passed",len(o['failed']),"failed",o['failed'][:3])
except Exception as e: print("tests: ERR",e)
X
(cd /repo && bash /verif/seeded/$1/demo.sh >/tmp/seed.demo 2>&1); echo "demo with patch: $?  $(tail -1 /tmp/seed.demo|cut -c1-150)"
fi
cd /verif && timeout 900 ./check.sh $P >/tmp/seed.check 2>&1; echo "check $P: rc=$? $(grep -A1 -m1 VIOLATION /tmp/seed.check | tail -1 | cut -c1-200)"
git -C /repo checkout -q -- .
if [ "$2" != fast ]; then (cd /repo && bash /verif/seeded/$1/demo.sh >/tmp/seed.demo 2>&1); echo "demo clean: $?  $(tail -1 /tmp/seed.demo|cut -c1-150)"; fi
