#!/bin/bash
# usage: run_check.sh PROPERTY quick|thorough
# Builds the engine, then decides the property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
TIER=${2:-${VERIF_TIER:-quick}}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GO111MODULE=on CGO_ENABLED=${CGO_ENABLED:-0}
TMP=$(mktemp -d /tmp/vle.XXXXXX) || exit 2
trap 'rm -rf "$TMP"' EXIT
export TMPDIR=$TMP
(cd engine && go build -o "$TMP/vle" .) || exit 2
"$TMP/vle" -prop "$1" -tier "$TIER" -root "$ROOT" -repo /repo
