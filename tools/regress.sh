#!/bin/bash
# regress.sh PROP COMMIT...: does the check of PROP see each fix undone?
P=$1; shift
for c in "$@"; do
  d=$(mktemp -d /tmp/rg-XXXXXX)
  git -C /repo archive HEAD | tar x -C $d
  if git -C /repo diff $c $c^ | (cd $d && patch -sp1 --no-backup-if-mismatch >/dev/null 2>&1); then
    VERIF_REPO=$d python3 /verif/check.py $P > $d/out 2>&1; r=$?
    echo "$P $c exit $r: $(git -C /repo log -1 --format=%s $c) :: $(grep -m1 -A1 VIOLATION $d/out | tr '\n' ' ' | cut -c1-200)"
  else echo "$P $c: does not revert cleanly"; fi
  rm -rf "$d"
done
