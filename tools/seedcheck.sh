#!/bin/bash
# seedcheck.sh <id>...: apply each planted bug to a clone of /repo and run its property's quick check on it
for id in "$@"; do
 d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 w=/tmp/seedcl_$id; rm -rf "/tmp/seedcl_$id"; git clone -q /repo $w
 git -C $w apply $d/patch.diff || { echo "$id: does not apply"; continue; }
 s=$(date +%s); /verif/check.sh $p quick -repo $w > /tmp/sc_$id.log 2>&1; r=$?
 rm -rf "/tmp/seedcl_$id"
 echo "$id ($p): exit=$r $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/sc_$id.log)"
done
