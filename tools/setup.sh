#!/bin/bash
# Builds the engine and type-checks the harnesses against /repo.
cd "$(dirname "$0")/.." || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GO111MODULE=on CGO_ENABLED=${CGO_ENABLED:-0}
TMP=$(mktemp -d /tmp/vle.XXXXXX) || exit 1
trap 'rm -rf "$TMP"' EXIT
(cd engine && go build -o "$TMP/vle" .) || exit 1
(cd harness && go vet ./props ./sym) || exit 1
for s in z3-new cvc5; do command -v $s >/dev/null || { echo "missing $s"; exit 1; }; done
echo ready
