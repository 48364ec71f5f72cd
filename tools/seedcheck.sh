#!/bin/bash
# seedcheck.sh [-n] ID...: builds, tests, demonstrates and checks each planted bug, one after another, in /repo (development aid)
# -n: skip the test suite
NOTEST=; [ "$1" = -n ] && { NOTEST=1; shift; }
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 1; }
  (cd /repo && bash $d/demo.sh >/tmp/seed/$id.clean 2>&1); clean=$?
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  (cd /repo && bash $d/demo.sh >/tmp/seed/$id.demo 2>&1); demo=$?
  t=skipped
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/build.sh >/tmp/seed/$id.build 2>&1 || t=buildfail
    bash /opt/vp/test.sh /tmp/seed/$id.json >/dev/null 2>&1
    t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/seed/$id.json'))
print('missing',sorted(set(b['stable'])-set(o['passed']))[:4])")
  fi
  (cd /verif && python3 check.py $prop --tier quick >/tmp/seed/$id.check 2>&1); c=$?
  git -C /repo checkout -- .
  echo "$id ($prop): demo clean=$clean patched=$demo tests: $t check exit=$c $(grep -m1 VIOLATION /tmp/seed/$id.check)"
done
