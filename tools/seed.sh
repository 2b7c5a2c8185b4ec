#!/bin/bash
# tools/seed.sh ID [notest]: confirm a planted bug in a scratch copy of /repo
ID=$1; S=/verif/seeded/$ID; W=/tmp/seed_$ID
cp -a /repo $W; cd $W
echo "demo on unchanged tree:"; (cd $W; PYTHONPATH=$W timeout 300 bash $S/demo.sh >/tmp/seed_$ID.out 2>&1; echo "  rc=$?")
git apply $S/patch.diff || { echo "patch does not apply"; cd /; rm -rf /tmp/seed_$ID; exit 1; }
echo "demo on patched tree:"; (cd $W; PYTHONPATH=$W timeout 300 bash $S/demo.sh >/tmp/seed_$ID.out 2>&1; echo "  rc=$?"; tail -2 /tmp/seed_$ID.out | cut -c1-200)
if [ "$2" != notest ]; then
PYTHONPATH=$W timeout 900 /opt/venv/bin/python -m pytest test/unit -q -p no:cacheprovider -n ${N:-8} --timeout=300 --skip-download --randomly-seed=1234 --randomly-dont-reorganize 2>&1 | tail -4 | cut -c1-200
fi
cd /; rm -rf /tmp/seed_$ID /tmp/seed_$ID.out
