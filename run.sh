#!/bin/bash
# usage: run.sh PROPERTY [mc flags]; tier from VERIF_TIER.
set -u
prop=$1; shift
root=$(cd "$(dirname "$0")" && pwd)
export HOME=/root MC_ROOT=$root
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset GOROOT
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
cd "$root" || exit 2
bin=$(mktemp -d) || exit 2
trap 'rm -rf "$bin"' EXIT
go build -o "$bin/mc" ./cmd/mc || { echo "build failed" >&2; exit 2; }
"$bin/mc" -prop "$prop" -tier "${VERIF_TIER:-quick}" "$@"
