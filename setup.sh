#!/bin/bash
# Builds the harness once, so that the build cache is warm.
set -e
cd "$(dirname "$0")/harness"
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off GOPATH=${GOPATH:-/root/go}
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp go.mod go.sum "$tmp/"
go build -modfile "$tmp/go.mod" -o "$tmp/worker" ./worker
echo ok
