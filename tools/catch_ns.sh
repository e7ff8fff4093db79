#!/bin/bash
# catch_ns.sh ID...: as catch.sh, on copies of /repo and /verif in a mount namespace of their own
# (so that /repo itself is never changed); PROP=Cxx runs another property's check than the bug's own
mkdir -p ${CR:-/tmp/cr} && rm -rf -- ${CR:-/tmp/cr}/repo && cp -a /repo ${CR:-/tmp/cr}/repo
mkdir -p ${CR:-/tmp/cr}/verif && tar -C /verif --exclude=./work --exclude=./.git --exclude=./.build -c . | tar -C ${CR:-/tmp/cr}/verif -x
[ -d ${CR:-/tmp/cr}/verif/.build ] || cp -a /verif/.build ${CR:-/tmp/cr}/verif/.build
for id in "$@"; do
  p=${PROP:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  git -C ${CR:-/tmp/cr}/repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(unshare -rm bash -c "mount --bind ${CR:-/tmp/cr}/repo /repo && cd ${CR:-/tmp/cr}/verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} python3 run.py $p" 2>&1); rc=$?
  git -C ${CR:-/tmp/cr}/repo checkout -q -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -c ^VIOLATION) $(echo "$out" | tail -1)"
  [ $rc -gt 1 ] && echo "$out" | tail -20
done
