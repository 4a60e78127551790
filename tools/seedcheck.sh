#!/bin/bash
# usage: seedcheck.sh ID [PROPERTY...]: confirms planted change ID in a scratch copy (builds, stable
# tests pass, demo 0 without / non-zero with), then runs the quick check of its property (or of the
# ones named) with the change applied to /repo, and undoes it.
ID=$1; shift
V="$(cd "$(dirname "$0")/.." && pwd)"
S=/tmp/seedscratch
P="$V/seeded/$ID/patch.diff"
[ -d $S ] || cp -a /repo $S
export CARGO_NET_OFFLINE=true
git -C $S fetch -q /repo HEAD && git -C $S reset -q --hard FETCH_HEAD
if [ -z "$SKIPDEMO" ]; then
(cd $S && bash "$V/seeded/$ID/demo.sh" >/tmp/seed.$ID.clean 2>&1); a=$?
git -C $S apply "$P" || { echo "$ID: patch does not apply"; exit 2; }
(cd $S && cargo test -q --offline 2>&1 | grep -E 'test result|error' | head -1) > /tmp/seed.$ID.test
(cd $S && bash "$V/seeded/$ID/demo.sh" >/tmp/seed.$ID.bug 2>&1); b=$?
git -C $S checkout -q -- .
echo "$ID: demo clean=$a patched=$b ($(tail -1 /tmp/seed.$ID.bug | cut -c1-150)) tests: $(cat /tmp/seed.$ID.test)"
fi
PROPS="${*:-$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")}"
git -C /repo apply "$P"
for p in $PROPS; do
  timeout 900 "$V/check.sh" $p quick > /tmp/seed.$ID.$p 2>&1; r=$?
  echo "$ID: $p exit $r: $(grep -m1 -A1 VIOLATION /tmp/seed.$ID.$p | tr '\n' ' ' | cut -c1-260)"
done
git -C /repo checkout -q -- .
