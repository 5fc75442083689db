#!/bin/bash
# plant.sh NAME: checks seeded/NAME against /repo (clean tree needed): applies, builds, passes the stable tests, demo discriminates.
# plant.sh NAME save: takes the current diff of /repo as patch first.
D=/verif/seeded/$1
mkdir -p $D
if [ "$2" = save ]; then git -C /repo diff > $D/patch.diff; git -C /repo checkout -q -- .; fi
cp /verif/tools/demo.sh $D/demo.sh
[ -z "$(git -C /repo status --short)" ] || { echo "repo not clean"; exit 1; }
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -5 /tmp/b.log; exit 1; }
cd /repo; bash $D/demo.sh > /tmp/d0.log 2>&1; a=$?
git -C /repo apply $D/patch.diff || exit 1
touch $(git -C /repo diff --name-only | sed 's#^#/repo/#')
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo BUILD-FAIL
bash $D/demo.sh > /tmp/d1.log 2>&1; b=$?
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.out 2>&1
m=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
bp=set(b.get('stable') or b.get('passed') or b.get('pass') or []); op=set(o.get('passed') or o.get('pass') or [])
print(sorted(bp-op))")
r=-; p=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /verif; bash check.sh $p quick >/tmp/chk.log 2>&1; r=$?
git -C /repo checkout -q -- .
echo "$1 [$p]: demo clean=$a patched=$b tests-missing=$m check-exit=$r"
tail -2 /tmp/d1.log; grep -m2 VIOLATION /tmp/chk.log
[ $a = 0 ] || cat /tmp/d0.log | head -20
