#!/bin/bash
# tools/try_seeds.sh [ID...]: do the checks notice the planted bugs? One line for each.
here=$(cd "$(dirname "$0")/.." && pwd)
for d in $here/seeded/${1:-*}; do
  id=$(basename "$d")
  prop=$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "$d/meta.json")
  out=$("$here/tools/try_patch.sh" "$prop" "$d/patch.diff")
  if grep -q "^VIOLATION property=$prop" <<<"$out"; then echo "caught $prop $id: $(grep -m1 '^violation' <<<"$out" | cut -c1-200)"
  else echo "MISSED $prop $id: $(head -c 300 <<<"$out")"; fi
done
