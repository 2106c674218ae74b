#!/bin/bash
# Builds the engine into /verif/bin (or $1).
set -e
cd "$(dirname "$0")"
out=${1:-../bin/semsym}
mkdir -p "$(dirname "$out")"
GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -o "$out" .
