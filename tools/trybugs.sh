#!/bin/bash
# Applies each planted bug in turn and runs its property's quick check (all bugs, or those named).
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$d/patch.diff" || { echo "$d: DOES NOT APPLY"; continue; }
  s=$SECONDS
  ./check.sh $p >/tmp/trybug.out 2>&1; r=$?
  git -C /repo checkout -q -- .
  v=$(grep -c "^VIOLATION property=$p" /tmp/trybug.out)
  if [ $r = 1 ] && [ $v -gt 0 ]; then echo "$d: caught by $p in $((SECONDS-s)) s"; else echo "$d: MISSED by $p (exit $r)"; tail -n3 /tmp/trybug.out; fi
done
