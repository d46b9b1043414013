#!/bin/bash
# runall.sh: every claimed check, one after another; one summary line each
cd "$(dirname "$0")/.."
for i in ${@:-$(ls contracts | sed -n 's/^\(C[0-9]*\)_.*/\1/p' | sort -u)}; do
  s=$(date +%s); timeout 900 python3-vt engine/check.py $i > /tmp/all_$i.log 2>&1; rc=$?
  echo "$i rc=$rc $(( $(date +%s) - s ))s $(grep -a "^$i:" /tmp/all_$i.log | cut -c1-150) undecided=$(grep -ac ^UNDEC /tmp/all_$i.log)"
done
