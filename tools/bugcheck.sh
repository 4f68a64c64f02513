#!/bin/bash
# bugcheck.sh ID [PROPERTY...]: applies a planted bug to /repo, runs the check(s), undoes it
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
p=${@:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
git -C /repo apply $V/seeded/$id/patch.diff || exit 2
for q in $p; do
  out=$(bash $V/run.sh $q quick 2>&1); rc=$?
  echo "== $id $q rc=$rc"; echo "$out" | tail -${LINES_OUT:-3} | cut -c1-300
done
git -C /repo checkout -- .
