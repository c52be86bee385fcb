#!/bin/bash
# warms the Go build cache for the harness, the race-instrumented harness and the command line tool
set -u
cd "$(dirname "$0")"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off GOTOOLCHAIN=local
for id in P01 D06; do
  B="$(mktemp -d /tmp/verif-setup-XXXXXX)"
  python3 lib/build.py "${VERIF_REPO:-/repo}" "$PWD" "$B" "$id" || exit 1
  rm -rf "$B"
done
