#!/bin/bash
# builds the executor once to see that it builds offline (every check builds it again)
cd "$(dirname "$0")/engine" || exit 1
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o /dev/null .
