#!/bin/bash
# seedrun.sh ID...: runs the check of each planted bug's property against it,
# in /repo itself (applied and undone).
for ID in "$@"; do
  D=/verif/seeded/$ID
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C /repo apply $D/patch.diff || { echo "$ID: does not apply"; continue; }
  S=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 /verif/check.py ${PROP:-$P} > /tmp/seedrun.$ID 2>&1; rc=$?
  git -C /repo checkout -q -- .
  [ -n "$PROP" ] || echo "$ID $P rc=$rc $(( $(date +%s)-S ))s" >> /verif/tools/seedresults.txt
  echo "$ID $P rc=$rc $(( $(date +%s)-S ))s $(grep -m1 VIOLATION /tmp/seedrun.$ID)"
done
