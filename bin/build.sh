#!/bin/bash
# build.sh OUTDIR: instruments /repo's current tree and builds simcheck there.
set -e
here="$(cd "$(dirname "$0")/.." && pwd)"
. "$here/sim/env.sh"
out="$1"
mkdir -p "$out"
cd "$here/sim"
# SIM_REPO is for development only (trying a scratch copy); checks use /repo.
sed "s#=> /repo\$#=> ${SIM_REPO:-/repo}#" go.mod >"$out/go.mod"; cp go.sum "$out/go.sum"
go build -modfile="$out/go.mod" -o "$out/instr" ./cmd/instr
rm -rf "$out/overlay"
"$out/instr" -modfile "$out/go.mod" -out "$out/overlay" -sites "$here/sim/simrt/sites_gen.go"
go build -modfile="$out/go.mod" -overlay "$out/overlay/overlay.json" -o "$out/simcheck" ./cmd/simcheck
