#!/bin/sh
# tryseeds.sh [ID...]: runs the check of each planted bug's property with the bug applied to a copy of /repo
cd "$(dirname "$0")/.." || exit 2
t=$(mktemp -d /tmp/tryseeds.XXXXXX)
cp -a /repo "$t/repo"
git -C "$t/repo" checkout -q -- .
for i in ${*:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C "$t/repo" apply "$PWD/seeded/$i/patch.diff" || { echo "$i: does not apply"; continue; }
  out=$(FICUS_REPO="$t/repo" timeout 900 bin/check "$p" quick 2>&1); rc=$?
  git -C "$t/repo" checkout -q -- .
  echo "$i $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep ' x ' | head -2 | tr '\n' '|' | cut -c1-200)"
done
rm -rf "$t"
