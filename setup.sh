#!/bin/bash
# Builds the symbolic execution engine (offline).
here="$(cd "$(dirname "$0")" && pwd)"
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x "$d/go" ] && PATH="$d:$PATH" && break; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
mkdir -p "$here/bin" "$here/evidence"
cd "$here/engine" && go build -o "$here/bin/symgo" .
