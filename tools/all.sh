#!/bin/bash
# Every quick check, one after another; prints the ones that are not quiet.  tools/all.sh [extra run.py arguments]
cd "$(dirname "$0")/.."
bad=0
for i in $(seq -w 1 27); do
  out=$(/opt/venv/bin/python pbt/run.py C$i --no-evidence "$@" 2>&1)
  rc=$?
  if [ $rc -ne 0 ]; then bad=1; echo "C$i exit $rc"; echo "$out" | tail -4; else echo "$out" | grep "^C$i"; fi
done
exit $bad
