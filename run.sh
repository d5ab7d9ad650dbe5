#!/bin/bash
# run.sh PROPERTY [quick|thorough]: decides one property on /repo's working tree.
# exit 0: held on everything explored; exit 1 + VIOLATION line: counterexample
# confirmed on the compiled code.
set -u
V=$(cd "$(dirname "$0")" && pwd)
P=$1
T=${2:-${VERIF_TIER:-quick}}
S=$(mktemp -d /tmp/tpsym.XXXXXX)
trap 'rm -rf "$S"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOMEMLIMIT=24GiB
B=240
[ "$T" = thorough ] && B=840
if ! (cd "$V/engine" && go build -o "$S/tpsym" .) >"$S/build.log" 2>&1; then
	cat "$S/build.log"
	echo "the symbolic executor does not build"
	exit 3
fi
mkdir -p "$V/evidence" "$V/cex"
"$S/tpsym" -property "$P" -tier "$T" -harness "$V/harness" -evidence "$V/evidence/$P.json" -scratch "$S" \
	-cex "$V/cex" -known "$V/known-findings.json" -budget "$B" -seed "${VERIF_SEED:-1}"
