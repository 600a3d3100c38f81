#!/bin/bash
# usage: tools/catch.sh ID...   applies each planted bug to /repo and runs the check of its property
# (ALL=1: every check), then undoes it.
cd /verif || exit 1
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  for q in $([ -n "$ALL" ] && ls checks | grep -E '^c[0-9]+' | sed 's/.py//' || echo ${p,,}); do
    s=$SECONDS
    VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 python3-vt checks/$q.py > /tmp/catch-$id-$q.out 2>&1; rc=$?
    echo "$id ${q^^}: exit $rc in $((SECONDS-s)) s $(grep -A1 -m1 ^VIOLATION /tmp/catch-$id-$q.out | tr '\n' ' ' | cut -c1-200)"
  done
  git -C /repo checkout -q -- .
done
