#!/bin/bash
# Builds the framework once so that the Go build cache is warm. Needs no network.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/usr/local/go/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
cd "$here/mc" || exit 1
mkdir -p "$here/evidence" "$here/replays"
go version || exit 1
go vet ./explore >/dev/null 2>&1
go build -o /dev/null ./... || echo "note: the tree in /repo does not build with the framework as is"
exit 0
