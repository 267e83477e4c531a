#!/bin/bash
# run.sh PROP | --replay FILE | --build : builds the harness against /repo's
# current working tree and runs the check of one property.
set -u
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
for g in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x $g/go ] && export PATH="$g:$PATH" && break; done
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=readonly
export GOMEMLIMIT=${GOMEMLIMIT:-4GiB}
B="$VERIF_DIR/.build"
mkdir -p "$B" || exit 2
ulimit -n 20000 2>/dev/null || ulimit -n "$(ulimit -Hn)"
build() { # name flags...
  local out="$B/$1"; shift
  (cd "$VERIF_DIR/harness" && go build -tags verif "$@" -o "$out" .) || { echo "build failed"; exit 2; }
}
build gevverif
export GEVVERIF_BIN="$B/gevverif" GEVVERIF_RACE_BIN="$B/gevverif-race"
case "${1:-}" in
  --build) build gevverif-race -race; exit 0 ;;
  --replay) build gevverif-race -race; exec "$GEVVERIF_BIN" replay "$2" ;;
  "") echo "usage: run.sh PROP"; exit 2 ;;
esac
if "$GEVVERIF_BIN" needs-race "$1"; then build gevverif-race -race; fi
exec "$GEVVERIF_BIN" run "$1"
