#!/bin/bash
# with_patch.sh PATCH COMMAND...: run a command with a patch applied to /repo, then undo it
# (PATCH may be "-R COMMIT" given as "R:commit" to undo a commit)
R="${VERIF_REPO:-/repo}"
p="$1"; shift
git -C "$R" diff --quiet || { echo "$R is not clean"; exit 9; }
case "$p" in
  R:*) git -C "$R" show "${p#R:}" | git -C "$R" apply -R - || exit 8;;
  *) git -C "$R" apply "$(readlink -f "$p")" || exit 8;;
esac
"$@"; rc=$?
git -C "$R" checkout -q -- .
exit $rc
