#!/bin/bash
# Checks that the toolchain and the modules that the checks need are present.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
cd "$here/harness" && go vet ./... && echo ready
