#!/bin/bash
# Tries a planted bug in a scratch copy: tools/seed.sh ID [CHECK...]   (default check: the property in meta.json)
# Prints whether it applies, builds nothing, passes the stable tests, what the demo says and which checks catch it.
id=$1; shift
S=/verif/seeded/$id
W=/tmp/seedwork.$$
trap 'rm -rf "$W"' EXIT
mkdir -p "$W" && cp -a /repo "$W/repo" && cp -r "$S" "$W/demo" || exit 2
cd "$W/repo" || exit 2
rm -f "$W"/demo/*.diff "$W"/demo/meta.json
(bash "$W/demo/demo.sh" >"$W/o1" 2>&1); r1=$?
git apply "$S/patch.diff" || { echo "$id: DOES NOT APPLY"; exit 2; }
(bash "$W/demo/demo.sh" >"$W/o2" 2>&1); r2=$?
/opt/venv/bin/python -B -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors tests >"$W/o3" 2>&1
tests="$(tail -1 "$W/o3") $(grep ^FAILED "$W/o3" | cut -c1-160)"
[ $r1 = 0 ] || tail -5 "$W/o1"
echo "$id: demo unchanged=$r1 patched=$r2 ($(tail -1 "$W/o2" | cut -c1-150)) tests: $tests"
checks=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
[ "$checks" = none ] && exit 0
for c in $checks; do
  VERIF_REPO="$W/repo" VERIF_EVIDENCE_DIR="$W/ev" VERIF_SHRINK=5 /verif/run_check.py "$c" >"$W/c" 2>&1; rc=$?
  echo "   $c rc=$rc $(grep -m1 VIOLATION "$W/c") $(grep -v -m1 VIOLATION "$W/c" | head -1 | cut -c1-200)"
done
