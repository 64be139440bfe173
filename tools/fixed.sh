#!/bin/bash
# fixed.sh PROPERTY: records /repo's last fix: commit in known_findings.txt
echo "fixed: property=$1 $(git -C /repo log -1 --format='%h %s' | sed 's/ fix:/ /; s/  / /')" >> /verif/known_findings.txt; tail -1 /verif/known_findings.txt
