#!/bin/bash
# bash run.sh <property>: decides one property on the current source of /repo.
# bash run.sh --build: only builds the analyser.
set -u
DIR=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:${PATH:-}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0
export PTCHECK_VERIF="$DIR"
BIN="$DIR/bin/ptcheck"
mkdir -p "$DIR/bin" "$DIR/evidence"
if [ ! -x "$BIN" ] || [ -n "$(find "$DIR/checker" -name '*.go' -newer "$BIN" -print -quit)" ]; then
  (cd "$DIR/checker" && go build -o "$BIN" .) || { echo "the analyser does not build"; exit 2; }
fi
[ "$1" = --build ] && exit 0
exec "$BIN" check "$1"
