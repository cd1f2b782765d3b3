#!/bin/bash
# trybugs.sh [ID...]: run each planted bug's check against it; must report a violation.
cd "$(dirname "$0")/.." || exit 1
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  out=$(bash run.sh "$p" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then echo "caught $id by $p"; else echo "MISSED $id by $p (rc $rc): $(tail -1 <<<"$out")"; fi
done
