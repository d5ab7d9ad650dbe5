#!/bin/bash
# replay.sh CEX.json: runs a counterexample on the code compiled from /repo.
set -eu
V=$(cd "$(dirname "$0")" && pwd)
F=$(readlink -f "$1")
S=$(mktemp -d /tmp/tpreplay.XXXXXX)
trap 'rm -rf "$S"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
R=
grep -q '"kind": "race"' "$F" && R=-race # data races show under the race detector
(cd "$V/harness" && go build $R -o "$S/replay" ./cmd/replay)
cd "$S"
python3 -c "import json,sys; d=json.load(open('$F')); print(d['harness']); print(json.dumps(d['vector']))" >in
GORACE="halt_on_error=1" timeout 60 ./replay "$(head -1 in)" 400 < <(tail -n +2 in) || echo "no result (crash or hang)"
