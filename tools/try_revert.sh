#!/bin/bash
# tools/try_revert.sh PROPERTY COMMIT: does the property's check notice when a fix is taken back?
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
t=$(mktemp -d /tmp/symrev.XXXXXX)
git clone -q /repo $t/repo
if git -C $t/repo revert -n $2 >/dev/null 2>&1; then
  SYMSIM_REPO=$t/repo SYMSIM_BUILD=$t/build $here/check $1 2>&1 | grep -E "^violation|^VIOLATION|exit|ERROR" | cut -c1-300 || true
else
  echo "revert of $2 conflicts"
fi
rm -rf $t
