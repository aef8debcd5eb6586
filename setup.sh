#!/bin/bash
# Builds the harness once, so that the checks find the compiled dependencies in the build cache.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
: "${HOME:=/root}"; export HOME
s=$(mktemp -d) || exit 1
trap 'rm -rf "$s"' EXIT
cp "$here/harness/go.mod" "$here/harness/go.sum" "$s/"
cd "$here/harness" || exit 1
go build -modfile="$s/go.mod" -o "$s/verif" . && go build -race -modfile="$s/go.mod" -o "$s/verif" .
