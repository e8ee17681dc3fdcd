#!/bin/bash
# trybug.sh ID...: run the property's check against each planted bug
cd /verif
for id in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
 s=$(date +%s); timeout 900 python3 check.py $p > /tmp/trybug.out 2>&1; r=$?; e=$(( $(date +%s) - s ))
 git -C /repo checkout -q -- .
 echo "$id $p exit $r ${e}s: $(grep -m1 VIOLATION /tmp/trybug.out)"
done
