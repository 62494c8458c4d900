#!/bin/bash
# Applies each planted bug (or those named) to /repo, runs its property's check, and undoes it. Development aid.
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=${CHECK:-${id:0:3}}
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  out=$(timeout 900 ./check $p 2>/dev/null); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 VIOLATION | cut -c1-120) $(echo "$out" | grep -v VIOLATION | head -1 | cut -c1-160)"
done
git -C /repo status --short
