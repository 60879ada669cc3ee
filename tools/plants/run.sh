#!/bin/bash
# run.sh ID...: applies each planted bug to /repo in turn, runs the quick check of its property, undoes it.
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
  prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' $d/meta.json)
  git -C /repo apply $d/patch.diff || exit 1
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout -k 5 900 ./check.sh $prop > /tmp/plant-out.txt 2>&1; rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -qa "^VIOLATION property=$prop " /tmp/plant-out.txt; then r=caught; else r="MISSED(rc=$rc)"; fi
  echo "$id $prop $r $(( $(date +%s) - s ))s $(grep -a '^VIOL' /tmp/plant-out.txt | head -1 | cut -c1-150)"
done
