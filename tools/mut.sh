#!/bin/bash
# usage: mut.sh PATCH CHECK... : run checks against a scratch copy of /repo with PATCH applied (-R<commit> reverts a commit)
set -e
T=$(mktemp -d /tmp/mut_XXXXXX)
git -C /repo worktree list >/dev/null
cp -a /repo/. "$T/"
case "$1" in
 -R*) git -C "$T" revert -n --no-edit "${1#-R}" >/dev/null ;;
 *) git -C "$T" apply "$1" ;;
esac
shift
for c in "$@"; do
  (cd /verif; VERIF_REPO="$T" ./check "$c" 2>&1 | cut -c1-400 | tail -${TAILN:-6}; echo "== $c rc=${PIPESTATUS[0]}")
done
rm -rf "$T"
