#!/bin/bash
# runchecks.sh [ID...]: apply each planted bug to /repo, run its property's quick check, revert
cd "$(dirname "$0")/../.."
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('$PWD/seeded/$id/meta.json'))['property'])")
  git -C /repo apply $PWD/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  t0=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 bin/check $p --tier quick > /tmp/rc.$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 VIOLATION /tmp/rc.$id.log)"
done
