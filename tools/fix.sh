#!/bin/bash
# fix.sh PROPERTY "commit message after fix: " : builds, tests, commits /repo, records it, rewrites the reference
set -e
bash /opt/vp/build.sh > /tmp/build.log 2>&1
bash /opt/vp/test.sh /tmp/o.json > /tmp/test.log 2>&1 || true
tail -1 /tmp/test.log
grep -q "49 passed, 0 failed" /tmp/test.log
cd /repo && git commit -qam "fix: $2"
H=$(git rev-parse --short HEAD)
echo "fixed: property=$1 $H ${3:-$2}" >> /verif/known-findings.txt
cd /verif && python3 tools/mkref.py 2>&1 | tail -1
git add -A && git commit -qm "reference: $2"
