#!/bin/bash
# usage: run.sh check ID
# Builds the analyser (incrementally, outside git) and runs one check.
cd "$(dirname "$0")" || exit 2
export SA_VERIF="$PWD"
export SA_REPO="${SA_REPO:-/repo}"
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod
export HOME="${HOME:-/root}"
mkdir -p evidence .bin
tmp=".bin/sa.$$"
if ! (cd sa && GOFLAGS=-mod=readonly CGO_ENABLED=0 go build -o "../$tmp" .); then
	echo "the analyser does not build"
	rm -f "$PWD/$tmp"
	exit 2
fi
"$PWD/$tmp" "$@"
rc=$?
rm -f "$PWD/$tmp"
exit $rc
