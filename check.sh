#!/bin/bash
# check.sh PROPERTY TIER: builds the checker from /verif/checker and decides one property of /repo's working tree.
HERE="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOPROXY=off GOSUMDB=off GOWORK=off
BIN="$(mktemp -d)" || exit 2
trap 'rm -rf "$BIN"' EXIT
(cd "$HERE/checker" && GOFLAGS=-mod=vendor go build -o "$BIN/verif-check" .) || { echo "the checker does not build"; exit 2; }
"$BIN/verif-check" -prop "$1" -tier "${2:-quick}" -repo "${VERIF_REPO:-/repo}" -verif "$HERE"
