#!/bin/bash
cd "$(dirname "$0")"; mkdir -p /tmp/refactor
env -u GOROOT GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOENV=off GOWORK=off /opt/veriftools/go1.27.3/bin/go build -o /tmp/refactor/refactor .
