#!/bin/bash
# all.sh [tier]: run every registered check, one summary line each
cd /verif; T=${1:-quick}
for i in $(python3 -c "import json;print(*[x['property'] for x in json.load(open('/verif/tools/checks.json'))])"); do
 s=$(date +%s); timeout 1500 ./run.sh $i $T > /tmp/all.$i.log 2>&1; r=$?; echo "$i rc=$r $(( $(date +%s)-s ))s $(tail -1 /tmp/all.$i.log | cut -c1-150)"
done
