#!/bin/bash
# tools/tryseed.sh ID [notest]: confirm a planted bug in a scratch copy (private
# mount namespace: /repo, the build tree, the venvs and /verif are shadowed),
# and run the check of its property against it.
ID=$1; OPT=$2
S=/verif/seeded/$ID
D=$(mktemp -d /tmp/seed-XXXXXX)
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir -p $D/demo; cp -a /opt/venv $D/venv; cp -a /opt/venv-lapacke $D/venvl
cp -a /repo $D/repo
cp -a /opt/build $D/build
mkdir $D/verif; (cd /verif; tar c --exclude=./build/replays --exclude=./.git .) | tar x -C $D/verif
cp $S/* $D/demo/; rm -f $D/demo/patch.diff $D/demo/meta.json
cp $S/patch.diff $D/p.diff
cat > $D/in.sh <<X
set -e
mount --bind $D/repo /repo
mount --bind $D/venv /opt/venv
mount --bind $D/venvl /opt/venv-lapacke
mount --bind $D/build /opt/build
mount --bind $D/verif /verif
set +e
cd /repo; git checkout -q -- .
bash /opt/vp/build.sh > $D/build0.log 2>&1 || { echo "BASE BUILD FAILED"; tail -3 $D/build0.log; }
timeout 300 bash $D/demo/demo.sh > $D/demo0.log 2>&1; r=\$?
echo "demo unchanged: \$r (want 0)"; [ \$r = 0 ] || tail -5 $D/demo0.log
git apply $D/p.diff || { echo "PATCH DOES NOT APPLY"; exit; }
bash /opt/vp/build.sh > $D/build.log 2>&1 || { echo "BUILD FAILED"; tail -5 $D/build.log; }
timeout 300 bash $D/demo/demo.sh > $D/demo.log 2>&1; r=\$?
echo "demo patched: \$r (want nonzero)"; tail -3 $D/demo.log
if [ "$OPT" != notest ]; then bash /opt/vp/test.sh $D/t.json > $D/test.log 2>&1; grep "^FAILED" $D/test.log; tail -1 $D/test.log; fi
cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 pbt/run.py $P > $D/check.log 2>&1; r=\$?
echo "check $P: exit \$r (want 1)"; grep "VIOLATION" -B12 $D/check.log | cut -c1-400 | tail -14
X
unshare -Urm bash $D/in.sh
rm -rf "$D"
