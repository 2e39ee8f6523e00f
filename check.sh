#!/bin/bash
# check.sh ID [quick|thorough]: builds the engine and decides one property.
cd "$(dirname "$0")" || exit 2
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=0
export GOPATH=/root/go GOCACHE=/root/.cache/go-build
B=$(mktemp -d /tmp/gosym-XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
(cd engine && go build -o "$B/gosym" .) >&2 || exit 2
"$B/gosym" check "$1" --tier "${2:-${VERIF_TIER:-quick}}"
