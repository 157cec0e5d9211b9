#!/bin/bash
# Development helper: apply each planted bug to a scratch copy and run its property's quick check on it.
# usage: tryseed.sh ID...   (CHECK=Cxx overrides the check)
for id in "$@"; do
  d=/verif/seeded/$id
  prop=${CHECK:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  sc=$(mktemp -d /tmp/trys.XXXXXX)
  cp -a /repo/. $sc/
  git -C $sc apply $d/patch.diff || { echo "$id DOES-NOT-APPLY"; rm -rf "$sc"; continue; }
  s=$(date +%s)
  out=$(cd /verif && NIDN_REPO=$sc VERIF_SEED=1 VERIF_TIER=quick ./check $prop --tier quick 2>&1); rc=$?
  case "$sc" in /tmp/trys.*) rm -rf -- "$sc";; esac
  echo "$id $prop rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 VIOLATION) :: $(echo "$out" | grep -v VIOLATION | grep -iv known | tail -1 | cut -c1-200)"
done
