#!/bin/bash
# tools/fix.sh C05 "what failed": commits /repo's tree as a fix and records it
git -C /repo commit -qam "fix: $2" || exit 1
echo "fixed: property=$1 $(git -C /repo log -1 --format=%h) $2" >> /verif/known_findings.txt
