#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
# Builds the analyser from /verif/tool and decides one property from the current source of /repo.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0 GOSUMDB=off
export HOME="${HOME:-/root}"
bash "$here/setup.sh" || { echo "the analyser does not build" >&2; exit 2; }
exec "$here/bin/rfccheck" -property "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo "${RFC_REPO:-/repo}" -verif "$here"
