#!/bin/bash
# check.sh PROPERTY: builds the monitors and the interpreter from /repo's working tree, then runs the check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tmp=$(mktemp -d "${TMPDIR:-/tmp}/vmon-build.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
cp -r "$here/harness" "$tmp/harness" || exit 2
(cd "$tmp/harness" && go build -o "$tmp/vmon" .) || { echo "cannot build the monitors" >&2; exit 2; }
case $prop in
C26|C29) (cd /repo && go build -o "$tmp/gmnlisp" ./cmd/gmnlisp) || { echo "cannot build the command" >&2; exit 2; } 
     export VMON_CLI=$tmp/gmnlisp ;;
C28) (cd "$tmp/harness" && go build -race -o "$tmp/vmon-race" .) || { echo "cannot build the instrumented monitors" >&2; exit 2; }
     export VMON_RACE=$tmp/vmon-race ;;
esac
export VMON_ROOT=$here
"$tmp/vmon" check "$prop"
