#!/bin/bash
# Usage: tools/seedtest.sh ID...  Confirms planted bugs in a scratch copy of /repo:
# the patch applies, the stable tests pass, the demo passes without and fails with it.
set -u
for id in "$@"; do
  d=/verif/seeded/$id
  w=$(mktemp -d /tmp/seed.XXXXXX)
  cp -a /repo "$w/repo"
  cp -a "$d" "$w/demo"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
  cd "$w/repo"
  r=""
  PYTHONDONTWRITEBYTECODE=1 timeout 300 bash "$w/demo/demo.sh" >"$w/out0" 2>&1 || r="$r demo-fails-unpatched($(tail -1 "$w/out0"))"
  git apply "$d/patch.diff" || r="$r does-not-apply"
  PYTHONDONTWRITEBYTECODE=1 timeout 300 bash "$w/demo/demo.sh" >"$w/out1" 2>&1 && r="$r demo-passes-patched"
  timeout 300 env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. /opt/venv/bin/python -m pytest -q -p no:cacheprovider --ignore=tests/test_dnsutils.py tests >"$w/t" 2>&1
  grep -q "65 passed" "$w/t" || r="$r tests-fail"
  echo "$id:${r:- ok} | $(tail -1 "$w/out1" | cut -c1-120)"
  cd /; rm -rf "$w"
done
