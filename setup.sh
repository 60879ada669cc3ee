#!/bin/bash
# Builds everything once, offline, so that the checks start from a warm build cache.
set -e
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/harness" "$tmp/harness"
cd "$tmp/harness"
go build -o "$tmp/vmon" .
go build -race -o "$tmp/vmon-race" .
cd /repo && go build -o "$tmp/gmnlisp" ./cmd/gmnlisp
echo "setup ok"
