#!/bin/bash
# build.sh DIR [race]: instrument /repo's working tree and build the simulator
# binary DIR/sim from it.
set -e
V=$(cd "$(dirname "$0")" && pwd)
B=$1
REPO=${REPO:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOWORK=off
mkdir -p "$B/m"
INSTR=$B/instr
(cd "$V/sim/instr" && go build -o "$INSTR" .)
(cd "$REPO" && "$INSTR" -repo "$REPO" -out "$B/src") >"$B/instr.log" 2>&1 || { cat "$B/instr.log" >&2; exit 3; }
cp -r "$V"/sim/harness/* "$B/m/"
cp "$REPO/go.sum" "$B/m/go.sum"
{
  echo "module simmain"
  echo
  grep -E '^go |^toolchain ' "$REPO/go.mod"
  echo "require ("
  sed -n '/^require (/,/^)/p' "$REPO/go.mod" | grep -vE '^require|^\)' | grep -vE 'ginkgo|gomega|leaktest|slim-sprig|go-cmp|pprof|go-logr|go-internal'
  echo "	github.com/snivilised/agenor v0.0.0"
  echo "	simrt v0.0.0"
  echo "	simstd v0.0.0"
  echo ")"
  echo "replace github.com/snivilised/agenor => ../src/agenor"
  echo "replace github.com/snivilised/pants => ../src/pants"
  echo "replace github.com/snivilised/nefilim => ../src/nefilim"
  echo "replace simrt => $V/sim/simrt"
  echo "replace simstd => $V/sim/simstd"
} >"$B/m/go.mod"
RACE=()
if [ "$2" = race ]; then
  # the simulator, its stand-ins and the harness are left out of what the race
  # detector watches: they are one processor's worth of memory shared by all
  cp -r "$V/sim/simrt" "$V/sim/simstd" "$B/"
  find "$B/m" "$B/simrt" "$B/simstd" -name '*.go' ! -path '*/atomic/*' ! -path '*/client/*' -exec sed -i 's|^func |//go:norace\nfunc |' {} +
  sed -i "s|$V/sim/|../|" "$B/m/go.mod"
  RACE=(-race -gcflags=simrt=-race=false -gcflags=simstd/...=-race=false -gcflags=simstd/atomic=-race=true -gcflags=simmain=-race=false)
fi
[ "$2" = race ] && export GOEXPERIMENT=nosizespecializedmalloc # -race=false packages would allocate behind the detector's back
(cd "$B/m" && go build "${RACE[@]}" -o "$B/sim" .) >"$B/build.log" 2>&1 || { cat "$B/build.log" >&2; exit 3; }
