#!/bin/bash
# fixed.sh PROP 'commit subject substring' 'what failed'
h=$(git -C /repo log --format='%h %s' | grep -F "$2" | head -1 | cut -d' ' -f1)
[ -n "$h" ] || { echo "no commit"; exit 1; }
echo "fixed: property=$1 $h $3" >> /verif/known_findings.txt
