#!/bin/bash
# usage: run.sh Pnn   (VERIF_TIER=quick|thorough)
# Builds the engine and the harness from source against /repo's working tree
# and decides property Pnn.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 TZ=UTC
# local build cache so that checks do not depend on earlier runs
mkdir -p "$here/out"
bin="$here/out/engine"
( flock 9
  cd "$here/engine" && go build -o "$bin.new" . && mv -f "$bin.new" "$bin"
) 9>"$here/out/.lock" || { echo "engine build failed" >&2; exit 3; }
exec "$bin" -p "$1" -verif "$here" -repo /repo "${@:2}"
