#!/bin/bash
# applies each planted bug to /repo in turn, runs its property's check, undoes it
cd /verif
for d in ${@:-$(ls seeded) $(ls seeded_grammar)}; do
  s=seeded; [ -d seeded/$d ] || s=seeded_grammar
  p=$(python3 -c "import json;print(json.load(open('$s/$d/meta.json'))['property'])")
  git -C /repo apply /verif/$s/$d/patch.diff || { echo "$d NOAPPLY"; continue; }
  timeout 900 python3 check.py $p > /tmp/seedrun-$d.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(grep -c 'failed obligation' /tmp/seedrun-$d.log) obl | $(grep -E 'VIOLATION|ERROR' /tmp/seedrun-$d.log | cut -c1-150) | undecided: $(grep -c '^undecided' /tmp/seedrun-$d.log)"
done
