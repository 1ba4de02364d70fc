#!/bin/bash
# run.sh build            builds the checker
# run.sh <id> [quick|thorough]   decides one property from /repo's current source
set -u
cd "$(dirname "$0")" || exit 2
here=$(pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB=* GONOSUMCHECK=1 GOWORK=off CGO_ENABLED=0
export HOME="${HOME:-/root}"
[ -d /opt/veriftools/go1.27.3 ] && export GOROOT=/opt/veriftools/go1.27.3 PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export PATH="$PATH:/usr/local/go/bin:/usr/local/bin"
build() {
  mkdir -p "$here/bin" && (cd "$here/checker" && go build -o "$here/bin/appdashcheck" .) || { echo "run.sh: the checker does not build" >&2; exit 2; }
}
case "${1:-}" in
build) build; exit 0 ;;
C[0-9]*)
  build
  tier="${2:-${VERIF_TIER:-quick}}"
  exec "$here/bin/appdashcheck" -repo /repo -verif "$here" -check "$1" -tier "$tier"
  ;;
*) echo "usage: run.sh build | <property> [quick|thorough]" >&2; exit 2 ;;
esac
