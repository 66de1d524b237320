#!/bin/bash
# run.sh <property> [quick|thorough]: decides one property for /repo's working tree.
# run.sh replay <file>: re-runs one saved case.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_DIR="$here" GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
export VERIF_SEED="${VERIF_SEED:-1}"
tmp=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
race=
[ "$1" = C19 ] && race=-race
[ "$1" = replay ] && grep -q '"property": "C19"' "$2" && race=-race
[ -n "$race" ] && export VERIF_RACE=1
cd "$here/harness" || exit 2
go build $race -o "$tmp/harness" . || exit 2
if [ "$1" = replay ]; then
    "$tmp/harness" replay "$2"
else
    "$tmp/harness" check "$1" "${2:-quick}"
fi
