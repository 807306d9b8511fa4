#!/bin/bash
# mut.sh FILE 's/old/new/' CHECK...: apply a sed edit to /repo/FILE, run the checks, undo. For sensitivity tests by hand.
f=$1; e=$2; shift 2
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
sed -i -E "$e" "/repo/$f"
if git -C /repo diff --quiet; then echo "NO CHANGE: $f $e"; exit 2; fi
for c in "$@"; do
  out=$(VERIF_EVIDENCE=/tmp/mut-evidence bash /verif/check.sh $c 2>&1); rc=$?
  echo "$c rc=$rc $(git -C /repo diff -U0 | grep '^[-+][^-+]' | tr '\n' ' ' | cut -c1-150)"
  [ -n "$V" ] && echo "$out" | head -${V}
done
git -C /repo checkout -- .
