#!/bin/bash
# usage: check.sh <PROPERTY> <quick|thorough> [harness flags]
# Rebuilds the harness from /repo's current working tree and runs one property's monitors.
set -u
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh 2>/dev/null || true
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
[ -n "${GOCACHE:-}" ] || export GOCACHE=/root/.cache/go-build
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
verif=$PWD
export VERIF_REPLAY_DIR=${VERIF_REPLAY_DIR:-$verif/replay}
tmp=$(mktemp -d /tmp/verif-build.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
# The counters of a coverage build are atomic and would order the goroutines the race detector watches.
how="-cover -covermode=atomic -coverpkg=verif/harness,github.com/spdx/tools-golang/..."
case " $(cat harness/RACE_PROPS) " in *" $prop "*) how="-race";; esac
export GOFLAGS=-mod=readonly
(cd harness && go build $how -o "$tmp/harness" .) || { echo "check error: the harness did not build against /repo" >&2; exit 2; }
"$tmp/harness" -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -verif "$verif" "$@"
