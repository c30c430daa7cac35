#!/bin/bash
# tryseed.sh ID [nocheck]: validate a planted bug in a scratch copy and run its property's check on it
ID=$1; S=/verif/seeded/$ID; D=/tmp/seed-$ID
rm -rf "$D"; cp -a ${VERIF_REPO:-/repo} $D; mkdir $D/.vp
for f in build.sh test.sh run_tests.py results.py BASELINE.json; do [ -f /opt/vp/$f ] && sed "s#/repo#$D#g;s#/opt/vp/#$D/.vp/#g" /opt/vp/$f > $D/.vp/$f; done
fail() { echo "$ID: $*"; rm -rf "$D"; exit 1; }
cd $D
bash .vp/build.sh >/dev/null 2>&1 || fail "base build"
bash $S/demo.sh > .vp/d0 2>&1 || { tail -5 .vp/d0; fail "demo fails on the base"; }
git apply --check $S/patch.diff && git apply $S/patch.diff || fail "does not apply"
bash .vp/build.sh > .vp/b 2>&1 || { tail -20 .vp/b; fail "does not build"; }
timeout 300 bash $S/demo.sh > .vp/d1 2>&1; r=$?
[ $r = 0 ] && fail "demo passes with the bug"
if [ "$NOTEST" = "" ]; then
bash .vp/test.sh $D/.vp/out.json > .vp/t 2>&1
python3 - $D <<'P' || fail "tests fail"
import json,sys
d=json.load(open(sys.argv[1]+'/.vp/out.json')); b=json.load(open(sys.argv[1]+'/.vp/BASELINE.json'))
base=set(b['stable'])
p=set(d['passed']); miss=base-p
assert base
if miss: print('lost', sorted(miss)[:8]); sys.exit(1)
P
fi
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
c="not run"
if [ "$2" = "" ]; then VERIF_REPO=$D VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 /verif/check.py $P > .vp/c 2>&1; c="exit $? $(grep -m1 -A1 VIOLATION .vp/c | tr '\n' ' ' | cut -c1-220)"; fi
echo "$ID ($P): ok demo=$r; check $c"
cd /; rm -rf "$D"
