#!/bin/bash
# tools/try.sh ID... : run the check of each planted bug's property with the bug applied to /repo, then undo it
cd "$(dirname "$0")/.."
for p in "$@"; do
  c=$(python3 -c "import json;print(json.load(open('seeded/$p/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$p/patch.diff" || continue
  ./check.sh "${PROP:-$c}" ${TIER:-quick} > /tmp/try_$p.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$p ${PROP:-$c} rc=$rc $(grep -c '^VIOLATION' /tmp/try_$p.log) violations, e.g. $(grep '^VIOLATION' /tmp/try_$p.log | head -1 | cut -c1-160) | $(tail -1 /tmp/try_$p.log | cut -c1-120)"
done
