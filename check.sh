#!/bin/bash
# check.sh <property> <tier>: builds the analyzer and analyses /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0
bin=$here/analyzer/bin/an
mkdir -p "$here/analyzer/bin"
(cd "$here/analyzer" && go build -o "$bin" .) || exit 2
exec "$bin" check "${VERIF_REPO:-/repo}" "$1" "$2"
