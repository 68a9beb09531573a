#!/bin/bash
# Development tool: confirms a planted change in a scratch copy (bind-mounted over /repo and /verif in a
# private mount namespace).   plant.sh ID [steps]   steps: clean demo tests check:Cxx quick:Cxx   (default: all)
ID=$1; shift
S=/verif/seeded/$ID
P=$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' $S/meta.json)
STEPS=${*:-clean demo tests check:$P}
W=/tmp/pl/$ID
mkdir -p $W; exec 8>/tmp/pl/$ID/lock; flock 8; rm -rf $W/repo $W/verif $W/demo
cp -a /repo $W/repo; cp -a /verif $W/verif 2>/dev/null; cp -r $S $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
git -C $W/repo checkout -q -- . ; git -C $W/repo apply --check $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
cat > $W/run.sh <<EOS
mount --bind $W/repo /repo && mount --bind $W/verif /verif || exit 9
cd /repo
for s in $STEPS; do
 case \$s in
 clean) bash /opt/vp/build.sh > $W/b0.log 2>&1 || { echo BUILD0 FAILED; exit 1; }
   timeout 300 bash $W/demo/demo.sh > $W/d0.log 2>&1 < /dev/null; echo "demo on clean tree: \$? (want 0)";;
 demo) git apply $S/patch.diff 2>/dev/null; bash /opt/vp/build.sh > $W/b1.log 2>&1 || { echo BUILD FAILED; tail -20 $W/b1.log; exit 1; }
   timeout 300 bash $W/demo/demo.sh > $W/d1.log 2>&1 < /dev/null; echo "demo with patch: \$? (want nonzero)"; tail -n 3 $W/d1.log;;
 tests) bash /opt/vp/test.sh $W/t.json > $W/t.log 2>&1; python3 -c "
import json; b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$W/t.json')); b=b.get('stable',b.get('passed',b)) if isinstance(b,dict) else b
p=set(t['passed']); print('stable tests not passing:', [x for x in b if x not in p][:5], len(b))";;
 check:*|quick:*) git apply $S/patch.diff 2>/dev/null; cd /verif; t0=\$SECONDS; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 tools/check.py \${s#*:} --tier quick > $W/c.log 2>&1; echo "check \${s#*:}: exit \$? in \$((SECONDS-t0)) s"; tail -4 $W/c.log | cut -c1-400; cd /repo;;
 esac
done
EOS
unshare -Urmpf --kill-child --mount-proc bash $W/run.sh
rm -rf $W/repo $W/verif $W/demo
