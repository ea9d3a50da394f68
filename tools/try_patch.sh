#!/bin/bash
# tools/try_patch.sh PROPERTY[,PROPERTY...] PATCH: do the properties' checks notice a change?
here=$(cd "$(dirname "$0")/.." && pwd)
t=$(mktemp -d /tmp/sympatch.XXXXXX)
git clone -q ${TRY_BASE:-/repo} $t/repo
if git -C $t/repo apply "$2"; then
  for p in ${1//,/ }; do
    SYMSIM_REPO=$t/repo SYMSIM_BUILD=$t/build $here/check $p 2>&1 | grep -E "^violation|^VIOLATION|exit|ERROR" | cut -c1-300
  done
else
  echo "$2 does not apply"
fi
rm -rf "$t"
