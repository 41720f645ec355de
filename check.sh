#!/bin/bash
# check.sh ID quick|thorough: rebuild the harness and the gmnlisp command from
# /repo's current working tree, then run the check of the property.
#   exit 0  the property held on everything explored
#   exit 1  VIOLATION line printed
#   else    the check itself failed
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export VERIF_DIR=$here
bin=$(mktemp -d) || exit 3
trap 'rm -rf "$bin"' EXIT
build() {
    (cd "$here/harness" && go build -o "$bin/harness" .) || return 1
    case "$1" in
    C30) (cd /repo && go build -o "$bin/gmnlisp" ./cmd/gmnlisp) || return 1 ;;
    esac
}
if ! build "$1" 2>"$bin/err"; then
    cat "$bin/err" >&2
    echo "check.sh: build failed" >&2
    exit 3
fi
export HARNESS_BIN=$bin
"$bin/harness" check "$1" "$2"
