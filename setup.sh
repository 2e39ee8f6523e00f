#!/bin/bash
# Warms the build cache: checks rebuild the engine and load /repo on their own.
cd "$(dirname "$0")" || exit 1
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=0 GOPATH=/root/go GOCACHE=/root/.cache/go-build
B=$(mktemp -d /tmp/gosym-XXXXXX) || exit 1
trap 'rm -rf "$B"' EXIT
cd engine && go build -o "$B/gosym" .
