#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the engine and decides one property.
here="$(cd "$(dirname "$0")" && pwd)"
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x "$d/go" ] && PATH="$d:$PATH" && break; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
mkdir -p "$here/bin"
(cd "$here/engine" && flock "$here/bin" go build -o "$here/bin/symgo" .) || { echo "ERROR: engine does not build"; exit 2; }
exec "$here/bin/symgo" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -verif "$here" -repo /repo
