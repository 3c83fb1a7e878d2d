#!/bin/bash
# warms the build cache of the harness; the checks rebuild it from /repo's working tree
set -e
cd "$(dirname "$0")/../harness"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOPATH=/root/go CGO_ENABLED=1
mkdir -p ../.work ../evidence
go build -o ../.work/vdrive-setup .
rm -f "$PWD/../.work/vdrive-setup"
