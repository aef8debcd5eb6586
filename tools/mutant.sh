#!/bin/bash
# mutant.sh PATCH PROPERTY...: applies a patch to a scratch copy of /repo and runs checks on it.
# With demo.sh beside the patch, also confirms that it builds, passes the tests and that the demo tells it apart.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
patch=$(realpath "$1"); shift
d=$(mktemp -d /tmp/mutant.XXXXXX); trap 'rm -rf "$d"' EXIT
. /opt/vp/env.sh
git -C /repo worktree list >/dev/null
cp -a /repo "$d/repo"
demo=$(dirname "$patch")/demo.sh
if [ -f "$demo" ] && [ "${NODEMO:-}" = "" ]; then
  ( cd "$d/repo" && bash "$demo" >"$d/demo0" 2>&1 ) || { echo "DEMO FAILS ON THE UNCHANGED TREE"; tail -5 "$d/demo0"; }
fi
( cd "$d/repo" && git apply "$patch" ) || { echo "DOES NOT APPLY"; exit 3; }
( cd "$d/repo" && go build ./... && go test ./... >"$d/test" 2>&1 ) || { echo "BUILD OR TESTS FAIL"; tail -5 "$d/test"; exit 3; }
if [ -f "$demo" ] && [ "${NODEMO:-}" = "" ]; then
  ( cd "$d/repo" && bash "$demo" >"$d/demo1" 2>&1 ) && echo "DEMO PASSES WITH THE PATCH"
fi
for p; do
  VERIF_DEV_REPO="$d/repo" VERIF_DEV_OUT="$d" "$here/check.sh" "$p" >"$d/out" 2>&1; rc=$?
  if [ $rc = 1 ]; then echo "$p caught: $(grep -m1 '^----' "$d/out") $(grep -m1 -A1 '^----' "$d/out" | tail -1 | cut -c1-160)"
  else echo "$p rc=$rc: $(tail -1 "$d/out")"; fi
done
