#!/bin/bash
# box.sh PATCH CHECK...: run checks against a copy of /repo with the patch, shown in place of /repo in a
# mount namespace of their own: /repo itself is not touched, and several boxes can run at a time.
# PATCH is a file for git apply, or "sed:FILE:EXPR". V=n shows the first n lines of each answer.
p=$1; shift
w=$(mktemp -d /tmp/box.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; mkdir "$w/tmp"
case $p in
sed:*) IFS=: read -r _ f e <<<"$p"; sed -i -E "$e" "$w/repo/$f" ;;
*) git -C "$w/repo" apply "$p" || exit 2 ;;
esac
git -C "$w/repo" diff --quiet && { echo "NO CHANGE $p"; exit 2; }
for c in "$@"; do
  out=$(TMPDIR=$w/tmp VERIF_EVIDENCE=$w/ev unshare -Urm --kill-child bash -c "mount --bind $w/repo /repo && exec bash /verif/check.sh $c" 2>&1); rc=$?
  echo "$c rc=$rc $(basename "$(dirname "$p")")"
  [ -n "$V" ] && echo "$out" | head -"$V"
done
