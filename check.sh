#!/bin/bash
# usage: check.sh ID [quick|thorough]   |   check.sh replay FILE
# Builds the checker from /repo's current working tree and explores.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
bin="$(mktemp -d)" || exit 2
trap 'rm -rf "$bin"' EXIT
cd "$here/mc" || exit 2
if ! go build -o "$bin/mc" . >"$bin/build.log" 2>&1; then
	cat "$bin/build.log" >&2
	echo "ERROR: the checker does not build against /repo" >&2
	exit 3
fi
if [ "$1" = replay ]; then
	"$bin/mc" replay "$2"
	exit $?
fi
tier="${2:-${VERIF_TIER:-quick}}"
"$bin/mc" check "$1" -tier "$tier" -dir "$here"
exit $?
