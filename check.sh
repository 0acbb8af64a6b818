#!/bin/bash
# check.sh <property> <quick|thorough> [engine flags]: decide one property on /repo's current tree.
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off CGO_ENABLED=1
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
V=$(cd "$(dirname "$0")" && pwd)
P=$1; T=${2:-quick}; shift 2
mkdir -p "$V/bin" "$V/evidence"
( cd "$V/engine" && go build -o "$V/bin/engine" . ) || { echo "engine does not build"; exit 2; }
exec "$V/bin/engine" -verif "$V" -prop "$P" -tier "$T" "$@"
