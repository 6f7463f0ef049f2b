#!/bin/bash
# run.sh ID [replay FILE]: builds the harness against /repo's working tree and runs one check.
export HOME="${HOME:-/root}" PATH="$PATH:/usr/local/bin:/usr/local/go/bin"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
cd "$VERIF_DIR/harness" || exit 3
go build -o "$work/harness" . || exit 3
"$work/harness" "$@"
