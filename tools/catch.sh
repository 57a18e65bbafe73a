#!/bin/bash
# Usage: tools/catch.sh ID [PROP...]  Runs the checks (default: of its property) on a copy
# of /repo with the planted bug.
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/catch.XXXXXX)
  cp -a /repo "$w/repo"; (cd "$w/repo" && git apply "$d/patch.diff")
  cp -a /verif/sbcheck "$w/sbcheck"; cp /verif/known-findings.txt "$w"
  t0=$(date +%s)
  (cd "$w" && SBCHECK_REPO="$w/repo" timeout 900 python3 -W ignore -m sbcheck.run $prop >"$w/out" 2>&1); rc=$?
  echo "$id: rc=$rc $(($(date +%s)-t0))s $(grep -v '^VIOLATION\|^UNDECIDED' "$w/out" | head -2 | cut -c1-220 | tr '\n' '|') und=$(grep -c ^UNDEC "$w/out")"
  rm -rf "$w"
done
