#!/bin/bash
# seedcheck.sh ID [notest]: verify a planted bug of /verif/seeded/ID: it applies and builds, the
# existing tests pass, the demonstration passes without and fails with it, and the check of its
# property reports it.
set -u
d=/verif/seeded/$1
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 1; }
cd /repo
bash /opt/vp/build.sh || exit 1
bash "$d/demo.sh" >/tmp/demo0.log 2>&1 && echo "demo unchanged: ok" || { echo "DEMO FAILS UNCHANGED"; tail -5 /tmp/demo0.log; exit 1; }
git -C /repo apply "$d/patch.diff" || { echo "NO APPLY"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh || { echo "NO BUILD"; exit 1; }
bash "$d/demo.sh" >/tmp/demo1.log 2>&1 && { echo "DEMO PASSES WITH BUG"; exit 1; } || echo "demo with bug: fails as it should"
if [ "${2:-}" != notest ]; then
bash /opt/vp/test.sh /tmp/seedout.json >/tmp/seedtest.log 2>&1
python3 - <<'P'
import json
a=json.load(open('/opt/vp/BASELINE.json')); b=json.load(open('/tmp/seedout.json'))
p=set(b['passed']); m=[x for x in a['stable'] if x not in p]
print('tests missing:',len(m),m[:5])
P
fi
bash /verif/check.sh $prop quick > /tmp/seedcheck.log 2>&1; rc=$?
echo "check $prop exit $rc"; tail -3 /tmp/seedcheck.log | cut -c1-300
