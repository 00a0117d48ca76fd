#!/bin/bash
# usage: seed.sh ID   Applies seeded/ID/patch.diff to /repo, runs the tests, the demo and the property's check, reverts.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
git apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || { echo "BUILD FAILED"; tail -5 /tmp/seed_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/seed_t.json 2>&1 | tail -1
timeout 300 bash $d/demo.sh > /tmp/seed_demo.log 2>&1; echo "demo with patch: $? (want nonzero): $(tail -1 /tmp/seed_demo.log | cut -c1-150)"
if [ -f /verif/checks/$prop.py ]; then
  s=$(date +%s); (cd /verif && ./check $prop quick > /tmp/seed_check.log 2>&1; echo "check $prop: exit $? in $(( $(date +%s) - s ))s: $(grep -c VIOLATION /tmp/seed_check.log) $(grep violated: /tmp/seed_check.log | head -1 | cut -c1-200)")
fi
git checkout -q -- .
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1
timeout 300 bash $d/demo.sh > /tmp/seed_demo.log 2>&1; echo "demo without patch: $? (want 0): $(tail -1 /tmp/seed_demo.log | cut -c1-150)"
