#!/bin/bash
# run the check of each planted change given (or all) against a scratch copy of /repo with it applied
cd "$(dirname "$0")/.."
[ $# -eq 0 ] && set -- $(ls seeded)
for b in "$@"; do
  d=$(mktemp -d /tmp/bugXXXXXX)
  cp -a /repo/rebulk "$d/rebulk"
  (cd "$d" && git init -q && git apply "/verif/seeded/$b/patch.diff") || echo "PATCH DOES NOT APPLY $b"
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  o=$(SA_REPO=$d python3 -m sa $p); rc=$?
  echo "$b $p rc=$rc $(echo "$o" | grep '^  ' | head -1 | cut -c1-150)"
  rm -rf "$d"
done
