#!/bin/bash
# apply behaviour-preserving rewrites to a scratch copy, run its tests and all (or the named) checks: all must be quiet
# usage: run.sh edits1 [Cxx ...]
ed=$1; shift
here=$(cd "$(dirname "$0")/../.." && pwd)
wt=$(mktemp -d /tmp/refac.XXXXXX); ev=$(mktemp -d /tmp/refev.XXXXXX)
cp -a /repo/. "$wt"; git -C "$wt" checkout -q -- .
python3 - "$here/tools/refactor" "$ed" "$wt" <<'P' || exit 1
import importlib, sys
sys.path.insert(0, sys.argv[1]); sys.dont_write_bytecode = True
m = importlib.import_module(sys.argv[2])
for f, a, b in m.EDITS:
    p = sys.argv[3] + '/kernelmethods/' + f
    t = open(p).read()
    if a == b: continue
    assert t.count(a) == 1, (f, t.count(a), a)
    open(p, 'w').write(t.replace(a, b))
P
(cd "$wt" && PYTHONPATH=/opt/vp/plugins VP_SEED=1 timeout 600 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -p vp_seed --hypothesis-seed=1 kernelmethods 2>&1 | tail -1)
for p in ${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C21 C23 C24 C25 C26}; do
  s=$(date +%s)
  out=$(VERIF_REPO=$wt VERIF_EVIDENCE=$ev timeout 900 "$here/check" "$p" 2>&1); rc=$?
  echo "$ed $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -v '^VERIF_SEED' | head -1 | cut -c1-260)"
  [ $rc != 0 ] && [ -n "$KEEP" ] && cp -r "$ev" "$KEEP"
done
rm -rf "$wt" "$ev"
