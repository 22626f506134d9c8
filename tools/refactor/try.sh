#!/bin/bash
# Applies each behaviour-preserving refactoring of this folder (or those given) to /repo, runs every
# quick check (or those in CHECKS) and undoes it.  Every check has to stay quiet.
cd "$(dirname "$0")"
here=$PWD
ids=${CHECKS:-$(seq -f 'C%02g' 1 23)}
for d in ${@:-$here/*.diff}; do
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
  git -C /repo apply "$d" || exit 2
  for c in $ids; do
    s=$(date +%s)
    (cd /verif && timeout 900 python3 bin/check $c quick) >/tmp/rf.out 2>&1; rc=$?
    echo "$(basename $d) $c rc=$rc $(( $(date +%s)-s )) s $(grep -m2 -E 'VIOLATION|answer' /tmp/rf.out | cut -c1-300)"
    [ $rc -ne 0 ] && cp /tmp/rf.out /tmp/rf.$(basename $d .diff).$c.out
  done
  git -C /repo checkout -- .
done
rm -f /tmp/rf.out
