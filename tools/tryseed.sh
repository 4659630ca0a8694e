#!/bin/bash
# run the check of its property (or the checks named) against a planted bug, in a scratch copy
# usage: tryseed.sh ID [Cxx ...]
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
prop=${*:-$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")}
wt=$(mktemp -d /tmp/try.XXXXXX); ev=$(mktemp -d /tmp/tryev.XXXXXX)
cp -a /repo/. "$wt"; git -C "$wt" checkout -q -- .
git -C "$wt" apply "$here/seeded/$id/patch.diff" || echo "does not apply"
for p in $prop; do
  s=$(date +%s)
  out=$(VERIF_REPO=$wt VERIF_EVIDENCE=$ev timeout 900 "$here/check" "$p" 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -v '^VERIF_SEED' | head -1 | cut -c1-160)"
done
rm -rf "$wt" "$ev"
