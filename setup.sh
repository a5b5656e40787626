#!/bin/bash
# Warms the Go build cache; every check rebuilds from /repo anyway.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
cd "$here/mc" && go build -o /dev/null . && go vet ./ref && go build -race -o /dev/null ./conc/vsync
