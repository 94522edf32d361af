#!/bin/bash
# usage: tools/seed.sh <seeded-id>...   build, stable tests, demo (both ways) and the property's quick check for a planted bug; restores /repo
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo dirty"; exit 2; }
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  b=ok; t=ok; dm=?; ck=?
  bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1 || b=FAILED
  bash /opt/vp/test.sh /tmp/seed_out.json > /tmp/seed_test.log 2>&1; grep -q "28 passed, 0 failed" /tmp/seed_test.log || t=FAILED
  (cd /repo && timeout 300 bash $d/demo.sh > /tmp/seed_demo.log 2>&1); dm=$?
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $prop quick > /tmp/seed_check.log 2>&1; ck=$?
  git -C /repo checkout -- .
  echo "$id property=$prop build=$b tests=$t demo_exit=$dm check_exit=$ck $(grep -c VIOLATION /tmp/seed_check.log) :: $(grep -m1 '^  \[' /tmp/seed_check.log | cut -c1-150)"
done
bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1 || echo "clean build failed"
for id in "$@"; do (cd /repo && timeout 300 bash /verif/seeded/$id/demo.sh > /tmp/seed_demo0.log 2>&1); echo "$id clean demo_exit=$?"; done
