#!/bin/bash
# builds the engine once so that the checks find it in the build cache
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off CGO_ENABLED=1
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
V=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$V/bin" "$V/evidence"
cd "$V/engine" && go build -o "$V/bin/engine" .
