#!/bin/bash
# Builds the analyser from the committed sources, offline.
set -e
cd "$(dirname "$0")"
mkdir -p bin evidence
cd analyzer
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off CGO_ENABLED=0
unset GO111MODULE GOOS GOARCH
go build -o ../bin/itkov .
