#!/bin/bash
# fixtest.sh COMMIT PROP: undo one repair in a throw-away copy and keep the failing case the check finds as regress/PROP/COMMIT.json
C=$1; P=$2
D=/tmp/sb/fix-$C-$P.d
rm -rf "/tmp/sb/fix-$C-$P.d"
mkdir -p "$D/verif"
cp -a /repo "$D/repo"
(cd /verif; git archive HEAD | tar x -C "$D/verif"; cp -a build "$D/verif/build"; cp -a props vlib cxx "$D/verif/"; rm -rf "$D/verif/regress/$P/$C.json")
cat > "$D/run.sh" <<EOT
mount --bind $D/repo /repo || exit 9
mount --bind $D/verif /verif || exit 9
cd /repo
git update-index -q --refresh; git diff $C $C~1 -- . | git apply -3 || { echo "DOES NOT REVERT"; exit 1; }
cd /verif
VERIF_SEED=1 timeout 900 ./check $P > $D/c.log 2>&1; echo "rc=\$?"; grep -h "VIOLATION\|failure:" $D/c.log | cut -c1-300; tail -n1 $D/c.log
EOT
echo "== $C $P"; unshare -m bash "$D/run.sh"
R=$(ls "$D"/verif/replay/$P-*.json 2>/dev/null | head -1)
[ -n "$R" ] && { mkdir -p /verif/regress/$P; cp "$R" /verif/regress/$P/$C.json; }
rm -rf "/tmp/sb/fix-$C-$P.d"
