#!/bin/bash
# seed.sh ID: confirm one planted bug (applies, builds, tests pass, demo fails; check verdict), then restore the tree. Development aid, not a check.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo && git diff --quiet || { echo "repo dirty"; exit 1; }
git apply $d/patch.diff || { echo "does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1; b=$?
bash /opt/vp/test.sh /tmp/out.json >/tmp/seed_test.log 2>&1; m=$(python3 /tmp/tst.py)
timeout 300 bash $d/demo.sh >/tmp/seed_demo1.log 2>&1; d1=$?
v=$(cd /verif && python3 check.py $prop 2>&1 | tail -${2:-3}); 
git checkout -q -- .
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1
timeout 300 bash $d/demo.sh >/tmp/seed_demo0.log 2>&1; d0=$?
echo "$id $prop build=$b tests:$m demo_with=$d1 demo_without=$d0"; echo "$v"
