#!/bin/bash
# development helper: test, commit a fix in /repo, record it.  fix.sh PROPERTY "message" "what failed"
bash /verif/tools/runtests.sh 2>&1 | tail -1 | tee /tmp/fixout
if ! grep -q "^missing \[\]" /tmp/fixout; then
  bash /verif/tools/runtests.sh 2>&1 | tail -1 | tee /tmp/fixout
  grep -q "^missing \[\]" /tmp/fixout || { echo "TESTS FAIL"; exit 1; }
fi
git -C /repo commit -qam "fix: $2" && h=$(git -C /repo rev-parse --short HEAD) && echo "fixed: property=$1 $h $3" >> /verif/known_findings.txt
git -C /repo status --short
