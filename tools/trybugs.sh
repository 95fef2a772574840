#!/bin/bash
# applies each planted change in turn to /repo, runs its property's check, undoes it
cd "$(dirname "$0")/.."
for d in ${@:-seeded/*/}; do d=seeded/$(basename "$d"); id=$(basename "$d")
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/$d/patch.diff" || { echo "$id does not apply"; continue; }
  timeout 900 python3 check.py "$p" quick >/tmp/trybugs.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p" /tmp/trybugs.out; then echo "caught  $p $id"; else echo "MISSED  $p $id rc=$rc"; tail -3 /tmp/trybugs.out; fi
done
