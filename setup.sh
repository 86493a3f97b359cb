#!/bin/bash
# Checks that the framework can be built offline. The checks build what they need themselves.
HERE=$(cd "$(dirname "$0")" && pwd)
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS="-mod=mod -buildvcs=false" GOSUMDB=off
B=$(mktemp -d /tmp/hvb.XXXXXX) || exit 2
trap 'case "$B" in /tmp/hvb.*) rm -rf "$B" ;; esac' EXIT
cp "$HERE/harness/go.mod" "$HERE/harness/go.sum" "$B/" && cd "$HERE/harness" &&
  go build -modfile="$B/go.mod" -o "$B/" ./cmd/hv ./cmd/plugin && echo "setup ok"
