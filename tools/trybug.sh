#!/bin/bash
# usage: trybug.sh ID [nocheck]   Tries seeded/ID in private copies of /repo and /verif: demo clean, build, tests, demo patched, check.
ID=$1; MODE=$2; V=${V:-/verif}; R=${REPO:-/repo}
S=$V/seeded/$ID
T=$(mktemp -d /tmp/tb.XXXXXX)
cp -a $R $T/repo; mkdir $T/verif; cp -a $V/. $T/verif/; rm -rf $T/verif/seeded; cp -a $S $T/demo; rm -f $T/demo/patch.diff $T/demo/meta.json
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cat > $T/run.sh <<R
ip link set lo up 2>/dev/null || python3 /verif/tools/lo_up.py; mount --bind $T/repo /repo && mount --bind $T/verif /verif || exit 9
unset REPO V; cd /repo; git checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $T/demo/demo.sh >$T/clean.log 2>&1; echo "demo clean: \$?"; tail -3 $T/clean.log
git apply $S/patch.diff || { echo "patch does not apply"; exit; }
bash /opt/vp/test.sh $T/t.json >$T/test.log 2>&1
python3 - <<X
import json
b=json.load(open('/opt/vp/BASELINE.json'));s=b['stable']
p=set(json.load(open('$T/t.json'))['passed']);m=[x for x in s if x not in p]
print('tests:', 'ok' if not m else ('BROKEN %d %s'%(len(m),m[:5])))
X
timeout 300 bash $T/demo/demo.sh >$T/bug.log 2>&1; echo "demo patched: \$?"; tail -3 $T/bug.log
[ "$MODE" = nocheck ] && exit
cd /verif; VERIF_SEED=\${VERIF_SEED:-1} ./check.sh $P quick >$T/check.log 2>&1; echo "check $P: \$?"; grep -v KNOWN $T/check.log | cut -c1-400 | tail -4
R
cp -a $S/patch.diff $T/patch.diff; sed -i "s#$S/patch.diff#$T/patch.diff#" $T/run.sh
echo "== $ID ($P)"
unshare -Urmn bash $T/run.sh
rm -rf "$T"
