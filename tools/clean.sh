#!/bin/bash
# runs every claimed check on /repo and shows those that alarm or are undecided anywhere
cd "$(dirname "$0")/.."
if [ -z "$VERIF_DUMP" ]; then python3 driver/extract.py >/dev/null || exit 1; export VERIF_DUMP=$PWD/.work/dump.json; fi
mkdir -p .work/clean
ids=${*:-$(ls checks/c*.py | sed 's/.*\/c\([0-9]*\).py/C\1/')}
printf '%s\n' $ids | xargs -P 8 -I{} bash -c 'python3 check.py {} > .work/clean/{} 2>&1; r=$?; if [ $r != 0 ] || grep -q UNDECIDED .work/clean/{}; then echo "{} exit $r"; head -c 1500 .work/clean/{}; fi'
