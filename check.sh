#!/bin/bash
# check.sh ID [REPLAY]: build the check of a property against /repo and run it (or replay a case).
# Exit 0: held on everything explored. 1: VIOLATION. 2: the check itself failed.
cd "$(dirname "$0")" || exit 2
. ./env.sh
id=$1
low=${id,,}
case $low in c[0-9][0-9]) ;; *) echo "usage: check.sh CNN [REPLAY]" >&2; exit 2;; esac
bin=$(mktemp -d) || exit 2
trap 'rm -rf "$bin"' EXIT
build_check "$low" "$bin/check" 2>"$bin/err" || {
  cat "$bin/err" >&2
  echo "the check does not build against /repo" >&2
  exit 2
}
# constants of changed code, for the generators (see harness/mine); without them the check works as well
(cd harness && go build -o "$bin/mine" ./mine && "$bin/mine" /repo mine/base.json) >"$bin/dict.json" 2>/dev/null &&
  export VERIF_DICT=$bin/dict.json
if [ $# -ge 2 ]; then
  "$bin/check" replay "$2"
else
  "$bin/check"
fi
