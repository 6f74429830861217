#!/bin/bash
# check.sh ID [quick|thorough]   decide one property on the current sources of /repo
# check.sh replay FILE           run a recorded counterexample again
set -u
export GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOENV=off GOCACHE=/verif/.cache/gocache CGO_ENABLED=0
mkdir -p /verif/.cache/gocache
(cd /verif/engine && go build -o /verif/.cache/vxsym .) || { echo "check error: the engine does not build" >&2; exit 2; }
if [ "$1" = replay ]; then
  exec /verif/.cache/vxsym replay "$2"
fi
exec /verif/.cache/vxsym check "$1" "${2:-${VERIF_TIER:-quick}}"
