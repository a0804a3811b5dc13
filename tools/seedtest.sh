#!/bin/bash
# seedtest.sh ID [nochk|chk|fast|all] [PROPS...]: validate /verif/seeded/ID in throw-away copies of /repo and /verif, bind-mounted in a
# private mount namespace, and run the checks of its property (or PROPS) against it.  Results: /tmp/sb/ID.res
ID=$1; MODE=${2:-all}; shift; shift
S=/verif/seeded/$ID
D=/tmp/sb/$ID.d
mkdir -p "$D"
cp -a /repo "$D/repo"
cp -a "$S" "$D/seed"
R=/tmp/sb/$ID.res
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
PROPS=${*:-$PROP}
[ "$MODE" = nochk ] || { mkdir "$D/verif"; (cd /verif; git archive HEAD | tar x -C "$D/verif"; cp -a build "$D/verif/build"; cp -a props vlib cxx "$D/verif/"); }
cat > "$D/run.sh" <<EOF
mount --bind $D/repo /repo || exit 9
[ "$MODE" = nochk ] || mount --bind $D/verif /verif || exit 9
cd /repo
if [ "$MODE" != chk -a "$MODE" != fast ]; then
bash /opt/vp/build.sh > $D/b0.log 2>&1 || echo "BASE BUILD FAILED"
bash $D/seed/demo.sh > $D/demo0.log 2>&1; echo "demo base rc=\$?"
fi
git apply $D/seed/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
if [ "$MODE" != chk ]; then
bash /opt/vp/test.sh $D/o.json > $D/t.log 2>&1 || echo "BUILD FAILED"
python3 -c "
import json
o=json.load(open('$D/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print('stable tests missing:', sorted(set(b['stable'])-set(o['passed']))[:5])"
timeout 300 bash $D/seed/demo.sh > $D/demo1.log 2>&1; echo "demo patched rc=\$?"
fi
if [ "$MODE" != nochk ]; then
cd /verif
for p in $PROPS; do
VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check \$p --tier quick > $D/c.\$p.log 2>&1; echo "check \$p rc=\$? \$(grep -h VIOLATION $D/c.\$p.log) \$(tail -n 1 $D/c.\$p.log)"
grep -h "failure:" $D/c.\$p.log | cut -c1-300
done
fi
EOF
unshare -m bash "$D/run.sh" > "$R" 2>&1
tail -n 4 "$D"/demo?.log >> "$R" 2>/dev/null
rm -rf "/tmp/sb/$ID.d"
echo "== $ID"; cat "$R"
