#!/bin/bash
# runcopy.sh ID...  like run.sh, on copies of /repo and /verif (while a vcheck is running)
R=/tmp/plant/rc; mkdir -p $R
rsync -a --delete --exclude target --exclude .git /repo/ $R/repo/ 2>/dev/null || { rm -rf $R/repo; mkdir -p $R/repo; (cd /repo && tar cf - --exclude=./target --exclude=./.git .) | tar xf - -C $R/repo; }
mkdir -p $R/verif; (cd /verif && tar cf - check.sh build.sh driver server known-findings.txt) | tar xf - -C $R/verif
sed -i "s#/repo#$R/repo#g" $R/verif/build.sh $R/verif/server/Cargo.toml
for id in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  (cd $R/repo && patch -s -p1 < /verif/seeded/$id/patch.diff) || { echo "$id APPLYFAIL"; continue; }
  s=$SECONDS
  (cd $R/verif; VERIF_SEED=${VERIF_SEED:-1} timeout 900 nice ./check.sh ${PROP:-$prop} quick) > /tmp/plant/$id.${PROP:-$prop}.log 2>&1; rc=$?
  (cd $R/repo && patch -s -R -p1 < /verif/seeded/$id/patch.diff)
  echo "$id ${PROP:-$prop} rc=$rc $((SECONDS-s))s $(grep -m1 VIOLATION /tmp/plant/$id.${PROP:-$prop}.log)"
done
