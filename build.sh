#!/bin/bash
# Builds the analyser into /verif/bin. Works offline.
set -u
cd "$(dirname "$0")/analyzer" || exit 1
bin=../bin/rqstatic
mkdir -p ../bin
sum=$(cat go.mod go.sum *.go | sha256sum | cut -d' ' -f1)
if [ -x "$bin" ] && [ "$(cat ../bin/sum 2>/dev/null)" = "$sum" ]; then exit 0; fi
GO=/opt/veriftools/go1.27.3/bin/go
[ -x "$GO" ] || GO=$(command -v go1.27 || command -v go)
tmp=$(mktemp -d ../bin/build.XXXXXX)
env -u GOROOT GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOENV=off GOWORK=off \
  "$GO" build -o "$tmp/rqstatic" . || { rm -rf "$tmp"; exit 1; }
mv "$tmp/rqstatic" "$bin" && echo "$sum" > ../bin/sum
rm -rf "$tmp"
