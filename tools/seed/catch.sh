#!/bin/bash
# catch.sh ID [checks...]: applies /verif/seeded/ID to /repo, runs the property's check (or those given), undoes it
d=/verif/seeded/$1; shift
prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
cd /repo && git apply $d/patch.diff || exit 9
cd /verif
for c in ${@:-$prop}; do
 s=$(date +%s); out=$(./check $c quick 2>&1); rc=$?; echo "$(basename $d) $c rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 -A3 VIOLATION | cut -c1-300| tr '\n' ' ')"
 [ $rc -gt 1 ] && echo "$out" | tail -5
done
git -C /repo checkout -- . 
