#!/bin/bash
# hunt.sh [ID...]: applies each planted bug to /repo, runs the check of its property, undoes it.
cd /verif || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' seeded/$d/meta.json)
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d DOES NOT APPLY"; continue; }
  s=$(date +%s)
  VERIF_TIER=quick timeout 900 ./check.sh ${CHECK:-$p} ${TIER:-quick} > /tmp/hunt.$d.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  v=$(grep -m1 '^VIOLATION' /tmp/hunt.$d.log)
  echo "$d $p rc=$rc $(( $(date +%s)-s ))s ${v:-MISSED}"
done
