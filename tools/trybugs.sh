#!/bin/bash
# trybugs.sh [id...]: applies each planted bug to /repo, runs its property's quick check, undoes it.
cd "$(dirname "$0")/.." || exit 2
export VERIF_SEED=${VERIF_SEED:-1}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
  s=$(date +%s)
  out=$(timeout 900 ./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" <<<"$out"; then r=caught; else r="MISSED rc=$rc"; fi
  echo "$d $p $r $(( $(date +%s) - s ))s $(grep -a '^facet' <<<"$out" | head -c 200)"
done
