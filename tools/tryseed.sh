#!/bin/bash
# tools/tryseed.sh ID [notest]: runs a planted bug in a private copy of /repo mounted over /repo
# (user and mount namespace), never in /repo itself: demo without it, build, tests, demo, check.
ID=$1; S=${SEEDED:-/verif/seeded}/$ID; W=/tmp/seed-$ID; D=/tmp/seeddemo-$ID
[ -f $S/patch.diff ] || { echo "no $S"; exit 2; }
mkdir -p $W $D; cp -a /repo/. $W/; cp -a $S/. $D/; rm -f $D/patch.diff $D/meta.json
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
unshare -Urm bash -c "
mount --bind $W /repo; cd /repo
git checkout -q -- . ; bash /opt/vp/build.sh >/tmp/seed-$ID.b0 2>&1 || echo BUILD0-FAILED
timeout 300 bash $D/demo.sh >/tmp/seed-$ID.d0 2>&1; echo \"$ID demo without: \$?\"
git apply $S/patch.diff || { echo APPLY-FAILED; exit 1; }
bash /opt/vp/build.sh >/tmp/seed-$ID.b1 2>&1 || echo BUILD-FAILED
timeout 300 bash $D/demo.sh >/tmp/seed-$ID.d1 2>&1; echo \"$ID demo with: \$?\"
if [ -z \"$2\" ]; then bash /opt/vp/test.sh /tmp/seed-$ID.json >/tmp/seed-$ID.t 2>&1; python3 - <<X
import json
b=json.load(open('/opt/vp/BASELINE.json')); s=set(b.get('stable',b.get('passed',[])))
r=json.load(open('/tmp/seed-$ID.json')); print('$ID tests missing:', sorted(s-set(r['passed']))[:5], len(s))
X
fi
[ \"$2\" = nocheck ] || { cd ${VERIFDIR:-/verif}; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 checks/run.py $P quick > /tmp/seed-$ID.c 2>&1; echo \"$ID check $P rc: \$?\"; grep -m3 -A1 VIOL /tmp/seed-$ID.c; }
"
rm -rf /tmp/seed-$ID /tmp/seeddemo-$ID
