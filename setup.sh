#!/bin/bash
# Warms the build cache; checks build for themselves.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
cd "$here/harness" && go build -o /dev/null . && cd /repo && go build -o /dev/null ./cmd/gmnlisp
