#!/bin/bash
# sweep.sh SEED...: all checks on /repo as it is, quick tier, with these seeds
cd /verif
for s in "$@"; do for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
 VERIF_SEED=$s VERIF_TIER=${TIER:-quick} python3 run.py $p > /tmp/sweep-$s-$p.log 2>&1; rc=$?
 tail -1 /tmp/sweep-$s-$p.log | cut -c1-150 | sed "s/^/rc=$rc /"
done; done
