#!/bin/bash
# Builds the verifier into /verif/bin (not committed).
cd "$(dirname "$0")/gocv" || exit 1
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod CGO_ENABLED=0
mkdir -p ../bin
t=$(mktemp -p ../bin gocv.XXXXXX) && go build -o "$t" . && mv -f "$t" ../bin/gocv
