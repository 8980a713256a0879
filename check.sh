#!/bin/bash
# check.sh PROPERTY [quick|thorough] [more gosym flags]
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; shift
tier=quick
case "$1" in quick|thorough) tier=$1; shift ;; esac
mkdir -p "$here/evidence"
bin=$(mktemp -d /tmp/gosym-bin.XXXXXX) || exit 2
trap '/bin/rm -f "$bin/gosym"; /bin/rmdir "$bin"' EXIT
(cd "$here/gosym" && go build -o "$bin/gosym" .) || exit 2
"$bin/gosym" -prop "$prop" -tier "$tier" -verif "$here" "$@"
