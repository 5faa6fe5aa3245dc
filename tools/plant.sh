#!/bin/bash
# usage: plant.sh ID   with /verif/seeded/ID/{patch.diff,main.rs,meta.json}: confirms the change and runs its check
id=$1; d=/verif/seeded/$id
[ -f $d/demo.sh ] || cp /verif/tools/demo.sh $d/demo.sh
chmod +x $d/demo.sh
cd /repo
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git status --porcelain)" ] || { echo dirty; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$FAST" ]; then $d/demo.sh >/tmp/demo0.log 2>&1; echo "clean demo rc=$?"; fi
git apply $d/patch.diff || { echo "patch does not apply"; exit 2; }
if [ -z "$FAST" ]; then bash /tmp/bt.sh 2>&1 | tail -2; $d/demo.sh >/tmp/demo1.log 2>&1; echo "patched demo rc=$? $(tail -1 /tmp/demo1.log)"; fi
cd /verif; unset VERIF_DUMP
if [ -n "$ALL" ]; then python3 - <<'P'
import subprocess,json
m=json.load(open('MANIFEST.json'))
subprocess.run('python3 driver/extract.py >/dev/null',shell=True)
import os
os.environ['VERIF_DUMP']='/verif/.work/dump.json'
for c in m['checks']:
    r=subprocess.run(c['quick_cmd'],shell=True,capture_output=True,text=True)
    if r.returncode: print('  fires:',c['property'])
P
fi
python3 check.py ${2:-$prop} > /tmp/check.log; rc=$?; echo "$id: check $prop rc=$rc"; grep -v '^VIOL' /tmp/check.log | head -${LINES_SHOWN:-12} | cut -c1-400
