#!/bin/bash
# usage: tryseed.sh SEED...: run the check of each seeded change on a scratch copy of /repo with the change applied
for s in "$@"; do
  d=/tmp/tryseed-$s
  rm -rf "/tmp/tryseed-$s"
  cp -a /repo $d && git -C $d apply /verif/seeded/$s/patch.diff || { echo "$s: patch does not apply"; continue; }
  p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  out=$(cd /verif && VERIF_REPO=$d VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p 2>&1)
  echo "$s exit $?: $(echo "$out" | tail -4 | cut -c1-300 | tr '\n' '|')"
  rm -rf "/tmp/tryseed-$s"
done
