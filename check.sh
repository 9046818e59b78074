#!/bin/bash
# check.sh PROPERTY        check one property (VERIF_SEED, VERIF_TIER)
# check.sh --replay FILE   execute a replay file against the current tree
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" VERIF_REPO="${VERIF_REPO:-/repo}"
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOOS=linux GOARCH=amd64
bin="$(mktemp -d /tmp/verif-tool-XXXXXX)" || exit 2
trap 'rm -rf -- "$bin"' EXIT
(cd tool && go build -o "$bin/veriftool" .) || exit 2
if [ "$1" = --replay ]; then
  "$bin/veriftool" replay "$2"
else
  "$bin/veriftool" check "$1"
fi
