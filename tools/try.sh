#!/bin/bash
# tools/try.sh [ID ...]: run the check of each planted bug against a patched
# scratch copy of /repo (so /repo stays clean). TIER=quick|thorough, CHECK=ID
V="$(cd "$(dirname "$0")/.." && pwd)"
for id in ${@:-$(ls "$V/seeded")}; do
  p=${CHECK:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
  w=$(mktemp -d /tmp/try_XXXX)
  cp -a /repo $w/repo; mkdir -p $w/v/evidence
  cp -a "$V/run.sh" "$V/vlib" "$V/checks" "$V"/*.txt $w/v/
  sed -i "s#/repo#$w/repo#" $w/v/run.sh $w/v/vlib/core.py
  git -C $w/repo apply "$V/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  out=$(VERIF_SEED=${VERIF_SEED:-1} $w/v/run.sh $p ${TIER:-quick} 2>/dev/null); rc=$?
  echo "$id $p exit=$rc violations=$(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep -o 'key=[^ ]*' | sort | uniq -c | sort -rn | head -3 | tr '\n' ' ')"
  case $w in /tmp/try_*) rm -rf "$w";; esac
done
