#!/bin/bash
# bash tools/seed_verify.sh ID...: applies each planted change to a scratch copy of /repo, runs the stable tests, its demo and the check of its property there.
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  S=$(mktemp -d /tmp/seedv.XXXXXX); cp -a /repo "$S/repo"; cp -a "$V/seeded/$id" "$S/demo"
  prop=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  ( cd "$S/repo" && git checkout -q -- . && PYTHONPATH=$S/repo PYTHONDONTWRITEBYTECODE=1 timeout 300 bash "$S/demo/demo.sh" >"$S/d0" 2>&1 ); d0=$?
  git -C "$S/repo" apply "$V/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$S"; continue; }
  ( cd "$S/repo" && PYTHONPATH=$S/repo PYTHONDONTWRITEBYTECODE=1 timeout 300 bash "$S/demo/demo.sh" >"$S/d1" 2>&1 ); d1=$?
  ( cd "$S/repo" && PYTHONPATH=$S/repo:/opt/vp/pyplugins MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p fixed_seed -o 'python_files=test_*.py Test*.py *_test.py' >"$S/t" 2>&1 )
  t=$(tail -1 "$S/t")
  out=""
  for p in ${CHECKS:-$prop}; do VF_REPO=$S/repo VF_EVIDENCE=$S/ev bash "$V/run.sh" $p >"$S/c" 2>&1; out="$out $p=$?"; grep -m1 VIOLATION "$S/c"; done
  echo "$id [$prop] demo clean=$d0 patched=$d1 tests: $t  checks:$out"
  [ $d0 = 0 ] && [ $d1 != 0 ] || { echo '--- clean'; tail -5 "$S/d0"; echo '--- patched'; tail -5 "$S/d1"; }
  rm -rf "$S"
done
