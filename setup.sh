#!/bin/bash
# Builds the analyser from the committed, vendored sources. Offline.
set -e
cd "$(dirname "$0")/dsv"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
mkdir -p ../bin ../evidence
go build -o ../bin/dsv .
