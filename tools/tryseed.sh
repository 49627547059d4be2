#!/bin/bash
# tryseed.sh ID...: applies each planted bug to /repo, runs the check of its property, and undoes it.
cd "$(dirname "$0")/.."
for id in "$@"; do
    git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
    p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
    out=$(./check.sh "$p" 2>&1); rc=$?
    git -C /repo checkout -q -- .
    python3 - "$id" "$p" "$rc" <<'EOF'
import json, sys
f = 'tools/caught.json'
try: d = json.load(open(f))
except FileNotFoundError: d = {}
d[sys.argv[1]] = sys.argv[2] if sys.argv[3] == '1' else 'missed'
json.dump(d, open(f, 'w'), indent=1, sort_keys=True)
EOF
    echo "$id $p exit=$rc $(echo "$out" | grep -m1 VIOLATION | cut -c1-160)"
done
