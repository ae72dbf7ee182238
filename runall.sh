#!/bin/sh
# run every check (tier from $1, default quick); prints the exit codes
cd "$(dirname "$0")"
for id in $(/opt/venv/bin/python check.py --list | cut -d' ' -f1); do
  /opt/venv/bin/python check.py $id --tier ${1:-quick} >/tmp/runall-$id.txt 2>&1
  echo "$id rc=$? $(head -1 /tmp/runall-$id.txt)"
  grep -h "violation at\|VIOLATION\|harness\|minimised:" /tmp/runall-$id.txt
done
