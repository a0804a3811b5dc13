#!/bin/bash
# run checks under several seeds: seeds.sh "N01 N02" "2 3 4"
cd "$(dirname "$0")/.."
for s in $2; do for p in $1; do
echo "== $p seed $s"; VERIF_SEED=$s timeout 890 ./check $p 2>&1 | tail -12
done; done
