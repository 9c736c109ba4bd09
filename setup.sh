#!/bin/bash
# Warms the build cache (with and without the race detector); everything is offline.
set -eu
. /opt/vp/env.sh
export GOSUMDB=off GOFLAGS=-mod=mod GOTOOLCHAIN=local
cd "$(dirname "$0")/harness"
tmp=$(mktemp -d /tmp/verif-setup-XXXXXX)
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/h" .
go build -race -o "$tmp/hr" .
cd /repo && go build -o "$tmp/cli" ./cmd/readability
