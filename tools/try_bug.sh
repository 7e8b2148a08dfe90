#!/bin/bash
# usage: try_bug.sh ID [notests] : applies seeded/ID to a scratch copy of /repo, runs demo on clean and patched, the checks and the tests
id=$1
V=$(cd "$(dirname "$0")/.." && pwd)
S=$V/seeded/$id
W=$(mktemp -d /tmp/bug.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
cp -a "$S" "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
cd "$W/repo"; git checkout -q -- .
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH=$W/repo
timeout 300 bash "$W/demo/demo.sh" > "$W/clean.log" 2>&1; c=$?
git apply "$S/patch.diff" || { echo "$id NOAPPLY"; exit 1; }
timeout 300 bash "$W/demo/demo.sh" > "$W/bad.log" 2>&1; b=$?
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
out=$(VERIF_REPO=$W/repo "$V/check" $prop --tier quick --seed 1 2>&1 | grep -E 'VIOLATION|monitor|msg|INCONC|held|OK' | head -4 | cut -c1-400)
echo "== $id prop=$prop demo clean=$c bad=$b"
[ $c = 0 ] || tail -5 "$W/clean.log"
[ $b != 0 ] || tail -5 "$W/bad.log"
echo "   check: $out"
if [ "$2" != notests ]; then
  /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --dist worksteal --timeout=300 --ignore=ngmix/tests/test_medsreaders.py ngmix 2>&1 | grep -E '^(FAILED|ERROR)|^[0-9]+ .*(passed|failed)' | head -8
fi
