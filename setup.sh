#!/bin/bash
# Builds the analyser from the committed, vendored sources. Offline.
set -e
cd "$(dirname "$0")/analyzer"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor GOWORK=off CGO_ENABLED=0
mkdir -p ../bin
go build -o ../bin/xv .
