#!/bin/bash
# newseed.sh ID PROPERTY NEEDS BREAKS: turn the edits in /tmp/seedwork (a copy of /repo) into a seed;
# the demo is read from stdin (python, run with the cwd first on the path).
set -eu
here=$(cd "$(dirname "$0")/.." && pwd)
d=$here/seeded/$1
mkdir -p "$d"
git -C /tmp/seedwork diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
cat > "$d/demo.py"
cat > "$d/demo.sh" <<'X'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"
X
python3 - "$d/meta.json" "$2" "$3" "$4" <<'X'
import json, sys
json.dump({"property": sys.argv[2], "needs": sys.argv[3], "what_it_breaks": sys.argv[4]}, open(sys.argv[1], "w"), indent=1)
X
git -C /tmp/seedwork checkout -q -- .
X=1
