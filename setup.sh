#!/bin/bash
# Warms the build cache; the checks do not depend on it.
set -u
root=$(cd "$(dirname "$0")" && pwd)
export HOME=/root
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset GOROOT
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
cd "$root" && go build -o /dev/null ./cmd/mc || exit 1
# C17's worker is built against an altered copy of the runtime.
go build -race -o /dev/null ./cmd/mc || exit 1
bash run.sh C17 -engine command >/dev/null 2>&1
exit 0
