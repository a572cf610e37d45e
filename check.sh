#!/bin/bash
# check.sh Cnn            decide one property (tier from VERIF_TIER)
# check.sh -replay FILE   run a reported case against the real code again
# check.sh -build         only build the engine
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOMODCACHE=/root/go/pkg/mod GOPATH=/root/go
mkdir -p "$here/.build"
bin="$here/.build/check.$$"
trap 'rm -f "$bin"' EXIT
(cd "$here/engine" && go build -o "$bin" .) || { echo "check: the engine does not build" >&2; exit 2; }
case "${1:-}" in
-build) exit 0 ;;
-replay) "$bin" -verif "$here" -replay "$2"; exit $? ;;
esac
prop="$1"; shift
"$bin" -verif "$here" -prop "$prop" -tier "${VERIF_TIER:-quick}" "$@"
exit $?
