#!/bin/bash
# catch.sh [ID...]: applies each planted bug to /repo in turn, runs its property's check and undoes it.
cd /verif
[ $# = 0 ] && set -- $(ls seeded)
for id; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  VERIF_SEED=1 VERIF_TIER=quick bash check.sh $prop >/tmp/catch.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id: rc $rc $(grep -c '^VIOLATION property='$prop /tmp/catch.log) $(grep -A1 '^VIOLATION' /tmp/catch.log | sed -n 2p | cut -c1-150)"
done
