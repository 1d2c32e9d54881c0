#!/bin/bash
# Builds the verifier from the committed files.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
cd "$(dirname "$0")/gover" && mkdir -p ../build && go build -o ../build/gover .
