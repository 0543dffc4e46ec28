#!/bin/bash
# seed.sh ID [CHECKS...]: confirm a planted bug (demo passes clean, builds, stable tests pass, demo fails with it) and run checks on it.
# Applies the patch to /repo's working tree and undoes it straight afterwards.  SKIPTESTS=1 skips the test suite.
id=$1; shift
S=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$SKIPCLEAN" ]; then
  bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || { echo "clean build failed"; exit 2; }
  (cd /repo; bash $S/demo.sh >/tmp/seed.demo0 2>&1); echo "demo clean rc=$?"
fi
git apply $S/patch.diff || { echo "patch does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || { echo "BUILD FAILED"; tail -20 /tmp/seed.log; exit 2; }
(cd /repo; bash $S/demo.sh >/tmp/seed.demo1 2>&1); echo "demo patched rc=$?"
if [ -z "$SKIPTESTS" ]; then
  bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.log 2>&1
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.json'))
bp=set(b.get('passed') or b.get('pass') or b.get('stable') or []); op=set(o.get('passed') or o.get('pass') or [])
print("tests missing:", sorted(bp-op)[:8])
P
fi
for c in ${*:-$prop}; do (cd /verif; bash check.sh $c >/tmp/seed.check 2>&1; echo "check $c rc=$?"; grep -A1 "violation:" /tmp/seed.check | head -6); done
