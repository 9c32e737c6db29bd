#!/bin/bash
# catch.sh ID... : applies a planted bug to /repo, runs its property's check,
# undoes it, and says whether it was caught.
verif=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$verif/seeded/$id
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' $d/meta.json)
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
  git -C /repo apply $d/patch.diff || exit 1
  VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 bash $verif/check.sh ${P:-$p} >/tmp/catch.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id (${P:-$p}): exit $rc $([ $rc = 1 ] && grep -q "VIOLATION property=${P:-$p}" /tmp/catch.log && echo CAUGHT || echo missed)  $(grep -m1 -A1 VIOLATION /tmp/catch.log | tr '\n' ' ' | cut -c1-300)"
done
