#!/bin/bash
# seedtest.sh ID [CHECK...]: confirm a planted bug in a scratch copy of /repo (patch applies, the
# tests pass, the demo tells the difference) and run the checks (default: its property's) on it.
set -u
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
seed=$here/seeded/$id
prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$seed/meta.json")
[ $# -eq 0 ] && set -- "$prop"
work=$(mktemp -d /tmp/seedtest.XXXXXX)
trap 'rm -rf "$work"' EXIT
mkdir "$work/repo" "$work/demo" "$work/t"
git -C /repo archive HEAD | tar x -C "$work/repo"
cp "$seed"/* "$work/demo"/; rm -f "$work/demo"/*.diff "$work/demo"/meta.json
export PYTHONDONTWRITEBYTECODE=1
demo() { (cd "$work/repo" && PYTHONPATH=$work/repo timeout 300 bash "$work/demo/demo.sh" >"$work/demo.out" 2>&1); echo $?; }
a=$(demo)
(cd "$work/repo" && git init -q . && git apply "$seed/patch.diff") || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
b=$(demo)
if [ "${SKIP_TESTS:-}" = 1 ]; then n=skipped; else
cp -a "$work/repo/tests" "$work/repo/pyproject.toml" "$work/t/"
n=$(cd "$work/t" && PYTHONHASHSEED=0 PYTHONPATH=$work/repo LC_ALL=C.UTF-8 /opt/venv/bin/python -m pytest -q --no-cov -p no:cacheprovider --rootdir "$work/t" -m 'not vcr' tests 2>&1 | tail -1)
fi
echo "$id ($prop): demo unchanged=$a changed=$b tests: $n"
for c in "$@"; do
  VERIF_REPO=$work/repo VERIF_SEED=${VERIF_SEED:-1} python3 "$here/check.py" "$c" --tier quick >"$work/out" 2>&1
  rc=$?
  echo "  $c exit=$rc $(grep -c '^VIOLATION' "$work/out") violations: $(grep -A1 -m1 '^VIOLATION' "$work/out" | tail -1 | cut -c1-${CUT:-160})"
done
