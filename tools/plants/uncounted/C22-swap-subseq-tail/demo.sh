#!/bin/bash
# Runs demo.lsp with the command built from the current tree and compares what it prints.
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
go build -o "$d/g" ./cmd/gmnlisp || exit 2
mkdir "$d/w" && cd "$d/w" || exit 2
timeout 60 "$d/g" "$here/demo.lsp" > "$d/out" 2>&1 < /dev/null
echo "status $?" >> "$d/out"
diff "$here/expect.txt" "$d/out"
