#!/bin/bash
# Builds the checker (gosym) from /verif/gosym; offline.
set -e
cd "$(dirname "$0")/gosym"
mkdir -p ../bin
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off HOME=${HOME:-/root}
exec go build -o ../bin/gosym .
