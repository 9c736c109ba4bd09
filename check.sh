#!/bin/bash
# check.sh ID TIER: builds the harness against /repo's working tree and runs one property.
# Exit 0: held; 1: VIOLATION line printed; 2: the check itself could not run.
set -u
id=$1
tier=${2:-quick}
. /opt/vp/env.sh
export GOSUMDB=off GOFLAGS=-mod=mod GOTOOLCHAIN=local
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
tmp=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
cd "$here/harness" || exit 2
go build -o "$tmp/harness" . >"$tmp/log" 2>&1 || { cat "$tmp/log" >&2; exit 2; }
if [ "$id" = C02 ]; then
  go build -race -o "$tmp/race" . >"$tmp/log" 2>&1 || { cat "$tmp/log" >&2; exit 2; }
  export VERIF_RACE=$tmp/race
fi
if [ "$id" = C22 ]; then
  (cd /repo && go build -o "$tmp/readability" ./cmd/readability) >"$tmp/log" 2>&1 || { cat "$tmp/log" >&2; exit 2; }
  export VERIF_CLI=$tmp/readability
fi
if [ "$tier" = replay ]; then
  "$tmp/harness" replay "$3"
  rc=$?
  [ $rc = 10 ] && rc=1
  exit $rc
fi
"$tmp/harness" run "$id" "$tier"
