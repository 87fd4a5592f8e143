#!/bin/bash
# Warms the Go build cache: builds the harness once plain and once with the race detector.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh 2>/dev/null || true
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOWORK=off
tmp=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
cd harness || exit 2
go build -cover -covermode=atomic -coverpkg=verif/harness,github.com/spdx/tools-golang/... -o "$tmp/a" . &&
go build -race -cover -covermode=atomic -coverpkg=verif/harness,github.com/spdx/tools-golang/... -o "$tmp/b" .
