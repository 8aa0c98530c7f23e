#!/bin/bash
# usage: seed_check.sh ID...: validates planted bugs against /repo (applied and undone) and runs the property's check on them
cd /verif
for ID in "$@"; do
  D=/verif/seeded/$ID
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C /repo apply $D/patch.diff || { echo "$ID: patch does not apply"; continue; }
  S=ok; bash tools/stable.sh > /tmp/seed_stable.log 2>&1 || S=TESTS-FAIL
  (cd /repo && bash $D/demo.sh > /tmp/seed_demo.log 2>&1); DEMO=$?
  timeout 900 bash run.sh $P > /tmp/seed_run.log 2>&1; RC=$?
  V=$(grep -c "^VIOLATION property=$P" /tmp/seed_run.log)
  git -C /repo checkout -- .
  bash /opt/vp/build.sh > /dev/null 2>&1
  (cd /repo && bash $D/demo.sh > /tmp/seed_demo0.log 2>&1); DEMO0=$?
  echo "$ID property=$P tests=$S demo(bug)=$DEMO demo(clean)=$DEMO0 check=$RC violation=$V"
  [ $DEMO = 3 -o $DEMO0 != 0 ] && tail -5 /tmp/seed_demo.log /tmp/seed_demo0.log
done
