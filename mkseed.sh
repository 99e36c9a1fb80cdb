#!/bin/bash
# development helper: mkseed.sh <id> <property> "<needs>" "<what it breaks>" < demo.py ; takes the current diff of /repo as the patch
set -e; R=${REPO:-/repo}
d=/verif/seeded/$1; mkdir -p "$d"
git -C "$R" diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change in /repo"; exit 1; }
{ echo '#!/bin/bash'; echo "PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=\"\$PWD\" exec /opt/venv/bin/python -W ignore - <<'EOF'"; cat; echo EOF; } > "$d/demo.sh"
chmod +x "$d/demo.sh"
python3 - "$d" "$2" "$3" "$4" <<'EOF'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+'/meta.json','w'),indent=1)
EOF
cd "$R"
set +e
bash "$d/demo.sh" >/tmp/w/demo.out 2>&1; a=$?
PYTHONPATH="$R" MPLBACKEND=Agg /opt/venv/bin/python -B -W ignore -m pytest -q -p no:cacheprovider test 2>&1 | tail -1
git checkout -- .
bash "$d/demo.sh" >/tmp/w/demo0.out 2>&1; b=$?
echo "$1: demo with patch exit $a, unchanged exit $b"
[ $a != 0 ] && [ $b = 0 ] || { echo "DEMO PROBLEM"; tail -5 /tmp/w/demo.out /tmp/w/demo0.out; }
git -C "$R" status --short
