#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] | check.sh --replay FILE | check.sh --setup (only builds the driver)
# Builds the driver and the simulation worker from /repo's current tree and runs the check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
mkdir -p "$here/.work"
bin="$(mktemp "$here/.work/driver.XXXXXX")" || exit 2
trap 'rm -f "$bin"' EXIT
(cd "$here/driver" && GOFLAGS=-mod=mod CGO_ENABLED=0 go build -trimpath -o "$bin" .) || exit 2
[ "${1:-}" = "--setup" ] && exit 0
if [ "${1:-}" = "--replay" ]; then
  "$bin" -verif "$here" -replay "$2"
else
  "$bin" -verif "$here" "$@"
fi
