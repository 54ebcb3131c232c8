#!/bin/bash
# trybugs.sh [id…]: applies each planted bug to /repo in turn, runs its property's check, undoes it.
cd /verif
ids="$*"; [ -n "$ids" ] || ids="$(ls seeded)"
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh "$p" 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p exit=$rc $(echo "$out" | grep -E '^(VIOLATION|failing input)' | cut -c1-220 | tr '\n' ' ')"
done
