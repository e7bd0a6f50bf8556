#!/bin/bash
# seedcheck.sh <seed id>...: apply to /repo, run its property's check, undo
for s in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
 o=$(cd /verif && timeout 900 python3 check.py $p 2>&1); rc=$?
 git -C /repo checkout -- .
 echo "== $s ($p) rc=$rc"; echo "$o" | cut -c1-300 | tail -${L:-6}
done
