#!/bin/bash
# tools/try_seeded.sh [BUG...]: applies each planted bug to /repo, runs the check of its property (ALL=1: every check), undoes it.
cd "$(dirname "$0")/.." || exit 1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for b in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$b/patch.diff" || { echo "$b: does not apply"; continue; }
  ids=$p; [ -n "${ALL:-}" ] && ids=$(seq -f "C%02g" 1 22)
  hit=
  for i in $ids; do
    s=$(date +%s); out=$(bash checks/run.sh $i quick 2>&1); rc=$?
    if [ -n "${ALL:-}" ]; then [ $rc = 1 ] && hit="$hit $i"; [ $rc -gt 1 ] && hit="$hit $i(error)"
    else echo "$b $p: exit $rc, $(( $(date +%s) - s )) s, $(echo "$out" | grep -a VIOLATION)"; echo "$out" | tail -4 | cut -c1-300 | sed 's/^/      /'; fi
  done
  [ -n "${ALL:-}" ] && echo "$b ($p):$hit"
  git -C /repo checkout -q -- .
done
