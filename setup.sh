#!/bin/bash
# Warms the Go build cache: builds the engine once (checks rebuild it themselves).
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence"
cd "$here/gosym" && go build -o /dev/null .
