#!/bin/bash
# check.sh PROPERTY [--replay FILE]: builds the harness against /repo's working
# tree and runs the generated checks of one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
: "${HOME:=/root}"; export HOME
: "${VERIF_SEED:=1}"; : "${VERIF_TIER:=quick}"
export VERIF_SEED VERIF_TIER VERIF_DIR=$here
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 2
export VERIF_SCRATCH=$scratch
trap 'rm -rf "$scratch"' EXIT
trap 'exit 2' INT TERM
race=
[ "$prop" = C21 ] && race=-race
# the module files are copied so that nothing in /verif is rewritten
cp "$here/harness/go.mod" "$scratch/go.mod"; cp "$here/harness/go.sum" "$scratch/go.sum"
# for development only: judge another tree than /repo
: "${VERIF_DEV_REPO:=/repo}"
[ "$VERIF_DEV_REPO" = /repo ] || ( cd "$scratch" && go mod edit -replace github.com/fumiama/go-docx="$VERIF_DEV_REPO" go.mod )
( cd "$here/harness" && go build $race -modfile="$scratch/go.mod" -o "$scratch/verif" . ) || { echo "the harness does not build"; exit 2; }
if [ "$prop" = C24 ]; then
  ( cd "$VERIF_DEV_REPO" && cp go.mod "$scratch/repo.mod" && cp go.sum "$scratch/repo.sum" && go build -modfile="$scratch/repo.mod" -o "$scratch/docxcmd" ./cmd/main ) || { echo "cmd/main does not build"; exit 2; }
fi
if [ "${2:-}" = --replay ]; then
  "$scratch/verif" replay "$prop" "$3"; exit $?
fi
"$scratch/verif" run "$prop"
exit $?
