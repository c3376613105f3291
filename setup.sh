#!/bin/bash
# Builds the engine once; every check rebuilds it (from the build cache) anyway.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0
mkdir -p "$here/out"
cd "$here/engine"
go build -o "$here/out/engine" .
