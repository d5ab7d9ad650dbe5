#!/bin/bash
# development helper: dev.sh PROPERTY [args]  (engine must be built to /tmp/tpsym)
mkdir -p /tmp/scr
P=$1; shift
exec timeout 1000 ${TPSYM:-/tmp/tpsym} -property $P -harness /verif/harness -evidence /tmp/ev-$P.json -scratch /tmp/scr -cex /tmp/cex -known /verif/known-findings.json -budget ${BUDGET:-60} "$@"
