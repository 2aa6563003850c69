#!/bin/bash
# Builds the simulator binary from /repo's working tree: build.sh OUTDIR
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1
mkdir -p "$out"
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB=* GOFLAGS= CGO_ENABLED=0 GOTOOLCHAIN=local
(cd "$here/instr" && go build -o "$out/verifinstr" .)
"$out/verifinstr" -repo "${VERIF_REPO:-/repo}" -out "$out/src" -sim "$here"
cd "${VERIF_REPO:-/repo}"
go build -mod=readonly -modfile="$out/src/sim.mod" -overlay="$out/src/overlay.json" -o "$out/sim" ./cmd/verifsim
