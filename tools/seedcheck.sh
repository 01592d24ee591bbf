#!/bin/bash
SELF=$(readlink -f $0)
# seedcheck.sh ID...: validates planted changes in a scratch copy of /repo and runs the property's check on them
for id in "$@"; do
  S=/verif/seeded/$id; W=$(mktemp -d /tmp/seed_XXXXXX)
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cp -a /repo $W/repo; sed "s#/repo#$W/repo#g" /opt/vp/build.sh > $W/build.sh; sed "s#/repo#$W/repo#g; s#/opt/vp/build.sh#$W/build.sh#" /opt/vp/test.sh > $W/test.sh
  cp -r $S $W/seed; rm -f $W/seed/*.diff $W/seed/meta.json
  cd $W/repo
  if [ -z "$SKIPTEST" ]; then
  bash $W/build.sh > $W/b0.log 2>&1
  timeout 300 bash $W/seed/demo.sh > $W/d0.log 2>&1; r0=$?
  git apply $S/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; continue; }
  bash $W/build.sh > $W/b1.log 2>&1; rb=$?
  timeout 300 bash $W/seed/demo.sh > $W/d1.log 2>&1; r1=$?
  bash $W/test.sh $W/t.json > $W/t.log 2>&1
  t=$(python3 -c "import json;d=json.load(open('$W/t.json'));print(len(d['passed']),len(d['failed']))")
  else git apply $S/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; continue; }; fi
  cd $(dirname $SELF)/..; HV_REPO=$W/repo HV_EVID=$W/ev VERIF_SEED=1 timeout 900 python3-vt tools/check.py $P > $W/c.log 2>&1; rc=$?
  v=$(grep -a "^VIOLATION" $W/c.log | head -1)
  o=$(grep -a "^obligation failed" $W/c.log | head -2 | tr '\n' ';')
  echo "$id [$P]: demo0=$r0 build=$rb demo1=$r1 tests=$t check=$rc $(echo "$v" | grep -q no-failing && echo UNCONFIRMED) $o $(tail -1 $W/c.log)"
  [ -n "$KEEP" ] && { cat $W/c.log $W/d0.log $W/d1.log; }
  rm -rf $W
done
