#!/bin/bash
# Build the engine and warm the build cache the checks use.
set -e
export GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOENV=off GOCACHE=/verif/.cache/gocache CGO_ENABLED=0
mkdir -p /verif/.cache/gocache /verif/evidence
cd /verif/engine
go build -o /verif/.cache/vxsym .
cd /repo/src
GOFLAGS=-mod=readonly GOMODCACHE=/opt/vp/cache/gomod go build -o /dev/null ./vxlisp
for t in z3-new cvc5; do command -v $t >/dev/null || { echo "missing solver $t" >&2; exit 1; }; done
