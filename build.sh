#!/bin/bash
# build.sh OUTDIR: instruments /repo's working tree into OUTDIR and builds the simulator
# (plain and with the race detector) from it by means of an overlay. /repo is only read.
set -e
verif=$(cd "$(dirname "$0")" && pwd)
repo=${REPO:-/repo}
out=$1
export GOFLAGS= GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOSUMDB=off
export HOME=${HOME:-/root}
(cd "$verif/tool/instrument" && go build -o "$out/instrument" .)
"$out/instrument" -repo "$repo" -out "$out" -sim "$verif/sim" >"$out/instrument.log"
cd "$repo"
go build -mod=readonly -modfile="$out/go.mod" -overlay "$out/overlay.json" -o "$out/sim" ./verifsim/cmd &
p=$!
ok=0
go build -mod=readonly -modfile="$out/go.mod" -race -overlay "$out/overlay.json" -o "$out/simr" ./verifsim/cmd || ok=1
wait $p || ok=1
exit $ok
