#!/bin/bash
# usage: trybug.sh ID [notests]  -- checks a planted bug in a scratch copy of /repo
id=$1; d=/verif/seeded/$id; w=$(mktemp -d /tmp/vf-bug-XXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/clean"; cp -a /repo "$w/bug"
git -C "$w/bug" apply "$d/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
mkdir "$w/demo"; cp -r "$d"/. "$w/demo"; rm -f "$w/demo"/*.diff "$w/demo/meta.json"
for i in 1 2 3; do
  (cd "$w/clean" && timeout 300 bash "$w/demo/demo.sh" >"$w/o" 2>&1) || { echo "$id: DEMO FAILS ON CLEAN"; tail -5 "$w/o"; }
  (cd "$w/bug" && timeout 300 bash "$w/demo/demo.sh" >"$w/o" 2>&1) && { echo "$id: DEMO PASSES WITH BUG"; tail -5 "$w/o"; }
done
if [ -z "$2" ]; then
  cd "$w/bug" && env -u SHELLOUS_TRACE PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8 timeout 800 /opt/venv/bin/python -m pytest -q -s -p no:cacheprovider -p no:randomly --timeout=60 --basetemp="$w/t" -o junit_family=xunit2 --junitxml="$w/junit.xml" tests </dev/null >"$w/test.log" 2>&1
  /opt/venv/bin/python -c "import shellous,sys; assert shellous.__file__.startswith('$w/bug'), shellous.__file__" || echo WRONG IMPORT
  echo "$id: tests: $(grep -aE 'passed|failed' "$w/test.log" | tail -1)"; grep -aE "^.{0,8}FAILED" "$w/test.log" | head
fi
for p in $(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])") $3; do
  VF_REPO="$w/bug" timeout 900 python3 -B /verif/check.py $p 2>&1 | cut -c1-220 | tail -4
done
