#!/bin/bash
# check.sh <property> [harness]   decide a property on /repo's current tree
# check.sh replay <file>          re-run a reported counterexample on the compiled code
cd "$(dirname "$0")" || exit 2
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
(cd engine && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o "$D/gosym" .) || exit 2
if [ "$1" = replay ]; then
	"$D/gosym" replay "$2"
else
	"$D/gosym" check "$@"
fi
