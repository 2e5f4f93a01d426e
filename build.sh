#!/bin/bash
# builds the verifier into /verif/bin
set -e
cd "$(dirname "$0")/gvc"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
mkdir -p ../bin
go build -o ../bin/gvc .
