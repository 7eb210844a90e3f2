#!/bin/bash
# trybug.sh ID [PROP...]: run checks against a planted bug in a scratch copy (via VERIF_REPO), quick tier
root=$(cd "$(dirname "$0")/.." && pwd); id=$1; shift
w=/tmp/bug-$id; rm -rf "/tmp/bug-$id"; cp -a "${PLANT_REPO:-/repo}" "$w"; d=$root/seeded/$id; [ -f $d/patch.diff ] || d=/tmp/plant-out/$id
git -C "$w" apply $d/patch.diff || exit 3
props="$*"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('$root/seeded/$id/meta.json'))['property'])")
for p in $props; do
  VERIF_REPO=$w VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 $root/bin/check.py $p > /tmp/bug-$id.$p.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -c '^VIOLATION' /tmp/bug-$id.$p.log) $(grep -m1 'violation:' /tmp/bug-$id.$p.log | cut -c1-160)"
done
rm -rf "/tmp/bug-$id"
