#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]   builds the harness against /repo's working tree and runs one check
set -u
VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR
REPO="${VERIF_REPO:-/repo}"
ID="$1"
TIER="${2:-${VERIF_TIER:-quick}}"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off GOTOOLCHAIN=local
BUILD="$(mktemp -d /tmp/verif-build-XXXXXX)"
trap 'rm -rf "$BUILD"' EXIT
python3 "$VERIF_DIR/lib/build.py" "$REPO" "$VERIF_DIR" "$BUILD" "$ID"
rc=$?
if [ $rc -ne 0 ]; then echo "BUILD FAILED" >&2; exit 2; fi
export VERIF_BUILD="$BUILD" VERIF_REPO="$REPO" TMPDIR="$BUILD/tmp"
mkdir -p "$TMPDIR"
export GORACE="log_path=$BUILD/race exitcode=0 halt_on_error=0"
cd "$BUILD"
"$BUILD/harness" "$ID" "$TIER"
