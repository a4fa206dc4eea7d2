#!/bin/bash
# run.sh REPO-COPY CHECK...: build and test the copy, then run the checks on it
R=$1; shift
PY=/opt/venv/bin/python
cd "$R" || exit 1
rm -f sudachipy/*.c sudachipy/*.so
(CFLAGS='-O0 -w' timeout 300 $PY setup.py build_ext --inplace >/tmp/build.log 2>&1) || { echo BUILD; tail -20 /tmp/build.log; exit 1; }
. /opt/vp/env.sh
cd "$R"
PYTHONPATH=$R PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 timeout 200 $PY -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -5
cd /verif
for c in "$@"; do
  o=$(VERIF_REPO=$R VERIF_SEED=1 timeout 900 nice python3-vt run.py $c quick --no-evidence --jobs 4 2>&1); rc=$?
  echo "$c rc=$rc $(echo "$o" | grep -m1 quick:)"
  [ $rc = 0 ] || echo "$o" | grep -v "^  case" | head -20
  echo "$o" | grep -E "[1-9][0-9]* cut" | head -4
done
