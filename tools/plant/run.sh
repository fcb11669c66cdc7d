#!/bin/bash
# run.sh ID...  applies each planted change to /repo, runs its property's quick check, undoes it
cd /verif
for id in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id APPLYFAIL"; continue; }
  s=$SECONDS
  VERIF_SEED=${VERIF_SEED:-1} timeout 900 ./check.sh ${PROP:-$prop} quick > /tmp/plant/$id.${PROP:-$prop}.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $prop rc=$rc $((SECONDS-s))s $(grep -m1 VIOLATION /tmp/plant/$id.${PROP:-$prop}.log)"
done
