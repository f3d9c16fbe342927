#!/bin/bash
# tools/caught.sh [ID ...]: apply each planted bug to /repo, run the check of
# its property, undo it.
cd "$(dirname "$0")/.."
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  out=$(VERIF_SEED=${VERIF_SEED:-1} ./run.sh $p 2>/dev/null); rc=$?
  git -C /repo checkout -- .
  echo "$id $p exit=$rc $(echo "$out" | grep -c '^VIOLATION') kinds: $(echo "$out" | grep -o 'key=[^ ]*' | head -3 | tr '\n' ' ')"
done
