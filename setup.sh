#!/bin/bash
# Warms the build cache for the harness; every check builds what it needs again.
export HOME="${HOME:-/root}" PATH="$PATH:/usr/local/bin:/usr/local/go/bin"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
cd "$(dirname "$0")/harness" || exit 1
go build -o /dev/null . || exit 1
go build -o /dev/null github.com/gmlewis/stldice/v4/cmd/voxcut || exit 1
work=$(mktemp -d) || exit 1
trap 'rm -rf "$work"' EXIT
go run ./sched/ovtool "$work" || exit 1 # the schedule programs
