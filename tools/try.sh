#!/bin/bash
# tools/try.sh <seeded id>[:PID] ... : run the check of the bug's property against a patched scratch copy of /repo
cd "$(dirname "$0")/.."
for a in "$@"; do
  b=${a%%:*}; p=${a#*:}
  [ "$p" = "$a" ] && p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  d=/tmp/w/try.$b; rm -rf "$d"; mkdir -p "$d"; cp -r /repo/. "$d"
  (cd "$d" && git checkout -q -- . && git apply "/verif/seeded/$b/patch.diff") || { echo "$b: does not apply"; continue; }
  VERIF_REPO=$d VERIF_EVIDENCE=/tmp/w/ev timeout 900 ./check.sh $p quick > /tmp/w/try.$b.log 2>&1; rc=$?
  rm -rf "$d"
  echo "$b $p exit=$rc $(grep -c '^  violated' /tmp/w/try.$b.log) violated; $(grep -c '  undecided:' /tmp/w/try.$b.log) undecided"
done
