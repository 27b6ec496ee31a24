#!/bin/bash
# tryseeds.sh [id...]: applies each planted bug to /repo, runs the check of its
# property, and undoes it.
cd /verif
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  out=$(bin/check $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep -v '^VIOLATION' | head -1 | cut -c1-150)"
done
