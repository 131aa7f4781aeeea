#!/bin/bash
# Builds everything the checks build, to see that it does (offline).
cd "$(dirname "$0")/.." || exit 1
export HOME=${HOME:-/root} PATH="/usr/local/bin:/usr/local/go/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS= GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
S=$(mktemp -d /tmp/verif-setup-XXXXXX) || exit 1
trap 'rm -rf "$S"' EXIT
cd harness || exit 1
CGO_ENABLED=0 go build -mod=readonly -o "$S/h" . && CGO_ENABLED=1 go build -race -mod=readonly -o "$S/r" . && cd /repo && CGO_ENABLED=0 go build -mod=readonly -o "$S/p" ./cmd/psignify
