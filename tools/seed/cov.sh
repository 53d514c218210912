#!/bin/bash
# cov.sh ID...: runs the check of the bug's own property (or PROPS="C01 C02") with the patch applied
for id in "$@"; do
d=/verif/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
for q in ${PROPS:-$p}; do
s=$(date +%s); bash /verif/check.sh $q ${TIER:-quick} >/tmp/cov.$id.$q 2>&1; r=$?
echo "$id $q exit=$r $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/cov.$id.$q | cut -c1-150)"
done
git -C /repo checkout -- .
done
