#!/bin/bash
# Warms the build cache: builds every check once. Nothing of it is needed later.
cd "$(dirname "$0")" || exit 2
. ./env.sh
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
for dir in harness/checks/c*; do
  build_check "${dir##*/}" "$out/check" || exit 2
done
