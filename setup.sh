#!/bin/bash
# warms the Go build cache (every check builds the executor itself)
set -e
cd "$(dirname "$0")/gosym"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off CGO_ENABLED=0 GOFLAGS=-mod=vendor
go build -o /dev/null .
