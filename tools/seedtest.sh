#!/bin/bash
# seedtest.sh ID [fast] - developer helper: try a planted bug in a private view of
# /repo and /verif (overlay mounts in a mount namespace of its own).
# fast: skip the test suite.
ID=$1; FAST=$2
W=$(mktemp -d /tmp/seed-XXXXXX)
mkdir -p $W/ru $W/rw $W/vu $W/vw
export ID FAST W
unshare -m bash -c '
mount -t overlay overlay -o lowerdir=/repo,upperdir=$W/ru,workdir=$W/rw /repo || exit 9
mount -t overlay overlay -o lowerdir=/verif,upperdir=$W/vu,workdir=$W/vw /verif || exit 9
cd /repo
S=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open(\"$S/meta.json\"))[\"property\"])")
git apply $S/patch.diff || { echo "$ID: does not apply"; exit 8; }
bash /opt/vp/build.sh >$W/build.log 2>&1 || { echo "$ID: does not build"; tail -30 $W/build.log; exit 8; }
bash $S/demo.sh >$W/demo.log 2>&1; D=$?
T=skipped
if [ -z "$FAST" ]; then bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1; T=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\"));t=json.load(open(\"$W/t.json\"))
print(sorted(set(b[\"stable\"])-set(t[\"passed\"]))[:5])"); fi
cd /verif
VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $P quick >$W/check.log 2>&1; C=$?
git -C /repo apply -R $S/patch.diff
echo "$ID property=$P demo-with-patch=$D broken-tests=$T check=$C $(grep -a ^VIOLATION $W/check.log)"
grep -aE "^FAILED|refused|verifier gave|lost|shape" $W/check.log | cut -c1-300
[ $D = 0 ] && tail -3 $W/demo.log
'
rm -rf "$W"
