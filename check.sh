#!/bin/bash
# usage: check.sh <property id> [tier]
# Builds the analyser when needed and runs one property's check on /repo.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
bin=".build/gmcheck"
fail() { echo "VIOLATION property=$id replay=none"; echo "  $1"; exit 1; }
if [ -z "$GOCACHE" ] && ! mkdir -p "${HOME:-/root}/.cache/go-build" 2>/dev/null; then
  export GOCACHE="$PWD/.build/gocache"
fi
mkdir -p .build evidence
if [ ! -x "$bin" ] || [ -n "$(find gmcheck -name '*.go' -newer "$bin" -print -quit)" ]; then
  (cd gmcheck && go build -o "../$bin.$$" .) && mv "$bin.$$" "$bin" || fail "the analyser does not build"
fi
[ "$id" = setup ] && exit 0
exec "$bin" -prop "$id" -repo /repo -verif "$PWD" -tier "$tier"
