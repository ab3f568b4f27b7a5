#!/bin/bash
# runs the property's quick check against each planted bug (all, or the ones named); prints the outcome
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
 p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d APPLY"; continue; }
 s=$(date +%s); ./check $p quick > /tmp/seeded_$d.log 2>&1; r=$?; git -C /repo checkout -q -- .
 echo "$d $p rc=$r $(( $(date +%s) - s ))s $(grep -m1 -a '^VIOLATION' /tmp/seeded_$d.log | cut -c1-150)"
done
