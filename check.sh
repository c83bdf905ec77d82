#!/bin/bash
# ./check.sh ID TIER: decides one property from the source in /repo.
# Exit 0 it holds, exit 1 and a VIOLATION line otherwise; an analysis that can not
# be completed is a violation, never a pass.
id=$1 tier=${2:-${VERIF_TIER:-quick}}
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
G=/opt/veriftools/go1.23.12
if [ -x $G/bin/go ]; then export GOROOT=$G PATH=$G/bin:$PATH; fi
export HOME=${HOME:-/root} GOPATH=${GOPATH:-/root/go} GOENV=off GOWORK=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOTELEMETRY=off
fail() {
  echo "$1" | tee "evidence/$id.report.txt"
  printf '{"property":"%s","tier":"%s","seed":%d,"level":"other","coverage":{"explanation":"the analysis did not complete"},"wall_s":0,"violations":1}\n' "$id" "$tier" "${VERIF_SEED:-0}" > "evidence/$id.json"
  echo "VIOLATION property=$id replay=evidence/$id.report.txt"
  exit 1
}
./build.sh || fail "the analyser does not build"
timeout -k 5 840 bin/rqstatic check "$id" "$tier"
rc=$?
[ $rc = 0 ] && exit 0
[ $rc = 1 ] && exit 1
fail "the analyser ended with $rc"
