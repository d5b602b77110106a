#!/bin/bash
# Builds the engine from the committed sources (offline).
set -e
cd "$(dirname "$0")/.."
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
mkdir -p bin
cd engine
go build -o ../bin/gosym.tmp.$$ . && mv ../bin/gosym.tmp.$$ ../bin/gosym
