#!/bin/bash
# seed.sh ID [nocheck]: validates a planted bug: patch applies, builds, stable tests pass, demo fails with it and passes without, and tells whether the check sees it
V=/verif; S=$V/seeded/$1; P=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
git apply $S/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { tail -20 /tmp/seed.build; echo "$1: BUILD FAILS"; exit 1; }
bash /opt/vp/test.sh /tmp/seed.t.json >/dev/null 2>&1
python3 - <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed.t.json'))
m=[x for x in b['stable'] if x not in set(t['passed'])]
print('tests missing:',m)
X
D=$(mktemp -d); cp -r $S/. $D/; rm -f $D/patch.diff $D/meta.json
timeout 300 bash $D/demo.sh >/tmp/seed.demo 2>&1; r=$?; tail -3 /tmp/seed.demo; echo "$1: demo with patch: $r (want != 0)"
if [ "$2" != nocheck ]; then
  ( cd $V && timeout 900 python3 sim/check.py $P --tier quick >/tmp/seed.check 2>&1; echo "$1: check $P exit $?"; grep -E "^VIOLATION|^ERROR" /tmp/seed.check; tail -4 /tmp/seed.check | cut -c1-300 )
fi
git checkout -q -- . ; bash /opt/vp/build.sh >/tmp/seed.build 2>&1
timeout 300 bash $D/demo.sh >/tmp/seed.demo 2>&1; r=$?; echo "$1: demo without patch: $r (want 0)"; [ $r = 0 ] || tail -5 /tmp/seed.demo
rm -rf $D
