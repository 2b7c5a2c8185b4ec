#!/bin/bash
# tools/seedcatch.sh ID...: apply each planted bug to /repo, run its property's quick check, undo
for ID in "$@"; do
S=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
git -C /repo apply $S/patch.diff || { echo "$ID: no apply"; continue; }
OUT=$(cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python check.py $P quick 2>&1); RC=$?
git -C /repo checkout -- .
echo "$ID $P rc=$RC"; echo "$OUT" | grep -E "VIOLATION|obligations" | head -${L:-3} | cut -c1-220
done
