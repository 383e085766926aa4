#!/bin/bash
# Builds the analyser (offline; golang.org/x/tools comes from the module cache).
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0 GOSUMDB=off
export HOME="${HOME:-/root}"
mkdir -p "$here/bin"
cd "$here/tool"
go build -o "$here/bin/rfccheck.tmp.$$" .
mv "$here/bin/rfccheck.tmp.$$" "$here/bin/rfccheck"
