#!/bin/bash
# run.sh ID...: run the property's quick check against seeded bug
for id in "$@"; do
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
w=/tmp/pl/rw_$id
[ -d $w ] && find $w -depth -delete
cp -a /repo $w
(cd $w && git apply /verif/seeded/$id/patch.diff) || { echo "$id APPLY FAILS"; continue; }
s=$(date +%s)
o=$(cd /verif && VERIF_REPO=$w VERIF_SEED=${SEED:-1} ./check $p 2>&1); rc=$?
echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$o" | grep -E 'VIOLATION|simcheck|class' | tail -2 | cut -c1-220 | tr '\n' ' ')"
find $w -depth -delete
done
