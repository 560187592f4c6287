#!/bin/bash
# usage: check.sh PROPERTY TIER | check.sh build | check.sh replay FILE
# Builds the driver and the simulator from /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
G=/opt/veriftools/go1.23.12
[ -x "$G/bin/go" ] || G=$(go env GOROOT)
mkdir -p .build || exit 2
env -u GOFLAGS GOROOT="$G" GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOCACHE="$PWD/.build/gocache" "$G/bin/go" build -buildvcs=false -o .build/driver ./driver || exit 2
case "$1" in
build | replay | stats | determinism) exec .build/driver "$@" ;;
*) exec .build/driver check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
