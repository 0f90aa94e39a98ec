#!/bin/bash
# tools/seedrun.sh [seed ids...]: applies each planted bug to /repo, runs its property's quick check (and extra properties given in EXTRA), undoes it
cd "$(dirname "$0")/.."
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
[ $# = 0 ] && set -- $(ls seeded)
for s; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$s/patch.diff" || { echo "$s: patch does not apply"; continue; }
  for q in $p $EXTRA; do
    t0=$(date +%s); out=$(VERIF_SEED=${VERIF_SEED:-1} bin/check $q quick 2>&1); rc=$?
    echo "$s $q rc=$rc $(( $(date +%s)-t0 ))s $(echo "$out" | grep -m1 -o 'VIOLATION.*' | cut -c1-100) $(echo "$out" | grep -v VIOLATION | tail -1 | cut -c1-160)"
  done
  git -C /repo checkout -q -- .
done
