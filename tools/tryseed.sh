#!/bin/bash
# tools/tryseed.sh ID [nocheck]: confirm a planted bug (tests pass, demo 0 -> nonzero) and run its check.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
cd /repo && bash "$d/demo.sh" >/tmp/seed.$id.clean 2>&1; clean=$?
git -C /repo apply "$d/patch.diff" || exit 2
bash /opt/vp/test.sh /tmp/seed.$id.json >/dev/null 2>&1
tests=$(python3 -c "
import json
o=json.load(open('/tmp/seed.$id.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=[x for x in b['stable'] if x not in set(o['passed'])]; print(len(m), m[:3])")
bash "$d/demo.sh" >/tmp/seed.$id.bug 2>&1; bug=$?
rc=-; n=-
if [ "$2" != nocheck ]; then
  s=$(date +%s)
  (cd /verif && /opt/venv/bin/python check.py "$prop" --tier quick >/tmp/seed.$id.check 2>&1); rc=$?
  n="$(grep -c "^VIOLATION property=$prop" /tmp/seed.$id.check) in $(( $(date +%s) - s ))s"
fi
echo "$id ($prop): demo clean=$clean bug=$bug | tests missing: $tests | check rc=$rc violations=$n"
