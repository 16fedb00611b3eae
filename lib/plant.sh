#!/bin/bash
# plant.sh ID PROPERTY [check...]: validates seeded/ID against /repo (build, stable tests, demo) and runs checks on it
ID=$1; P=$2; D=/verif/seeded/$ID; cd /repo
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh >/tmp/pb.log 2>&1 || { echo build0 failed; exit 2; }
[ -n "$SKIP" ] || { bash $D/demo.sh >/tmp/pd0.log 2>&1; echo "demo clean rc=$?"; }
git apply $D/patch.diff || { echo apply failed; exit 2; }
bash /opt/vp/build.sh >/tmp/pb.log 2>&1 || { echo BUILD FAILED; grep error /tmp/pb.log | head -3; git checkout -- .; exit 2; }
if [ -z "$SKIP" ]; then
bash $D/demo.sh >/tmp/pd1.log 2>&1; echo "demo patched rc=$?"; tail -2 /tmp/pd1.log
bash /opt/vp/test.sh /tmp/pt.json >/tmp/pt.log 2>&1; tail -1 /tmp/pt.log
fi
for c in $P; do (cd /verif; timeout 900 python3 check.py $c > /tmp/pc.log 2>&1; echo "check $c rc=$?"; grep ^VIOLATION /tmp/pc.log | head -3); done
git checkout -- .
