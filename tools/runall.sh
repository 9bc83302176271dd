#!/bin/bash
# runs every check once (quick tier) and prints the summary lines
cd "$(dirname "$0")/.."
for p in ${*:-$(ls props | sed -n 's/^\(C[0-9]*\)\.py$/\1/p')}; do
  o=$(./run.py $p 2>&1); rc=$?
  echo "$p rc=$rc $(echo "$o" | tail -1)"; echo "$o" | grep "VIOLATION\|ERROR"
done
