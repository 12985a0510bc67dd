#!/bin/bash
# Development helper: tryseed.sh DIR [CHECK...]: in scratch copies mounted over
# /repo and /verif (private mount namespace), confirm that DIR/demo.sh passes on
# the unchanged tree, fails with DIR/patch.diff, that the patched tree builds
# and passes the stable tests, and what the named checks say about it.
d=$(realpath "$1"); shift
exec unshare -m bash -s "$d" "$@" <<'IN'
d=$1; shift
S=/tmp/seedlay; mkdir -p $S; rm -rf /tmp/seedlay/x; cp -a "$d" /tmp/seedlay/x; mv /tmp/seedlay/x/patch.diff /tmp/seedlay/p.diff
rm -rf ${WT:-/tmp/wt}/src; cp -a /repo/src ${WT:-/tmp/wt}/src
mount --bind ${WT:-/tmp/wt} /repo
rsync -a --delete --exclude target --exclude evidence /verif/sim/ ${VV:-/tmp/vv}/sim/ 2>/dev/null || cp -a /verif/sim/src /verif/sim/Cargo.toml ${VV:-/tmp/vv}/sim/
cp /verif/check.sh /verif/known-findings.json ${VV:-/tmp/vv}/
mount --bind ${VV:-/tmp/vv} /verif
cd /repo
bash /opt/vp/build.sh >/tmp/seedlay/b0.log 2>&1 || { echo "base build failed"; exit 1; }
if [ -z "$SKIPDEMO" ]; then
  timeout 300 bash /tmp/seedlay/x/demo.sh >/tmp/seedlay/d0.log 2>&1; echo "demo clean rc=$?"
fi
git apply /tmp/seedlay/p.diff || { echo "no apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/seedlay/b1.log 2>&1 || { echo "patched build failed"; tail -30 /tmp/seedlay/b1.log; exit 1; }
if [ -z "$SKIPDEMO" ]; then
  timeout 300 bash /tmp/seedlay/x/demo.sh >/tmp/seedlay/d1.log 2>&1; echo "demo patched rc=$?"
  bash /opt/vp/test.sh /tmp/seedlay/t.json >/dev/null 2>&1
  python3 - <<'P'
import json
B=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/seedlay/t.json'))
def names(x,k='passed'):
    v=x.get(k) or x.get('stable') or x.get('tests')
    return set(v if isinstance(v,list) else [n for n,r in v.items() if r in (True,'pass','passed','ok')])
try:
    T=names(t); print('tests: baseline',len(B),'missing',sorted(B-T)[:10])
except Exception as e: print('tests?',e,list(t)[:5])
P
fi
for c in "$@"; do
  cd /verif; s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick bash check.sh $c >/tmp/seedlay/c.log 2>&1; rc=$?
  echo "check $c rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/seedlay/c.log) $(grep -m1 -i 'class\|what' /tmp/seedlay/c.log | cut -c1-200)"
done
IN
