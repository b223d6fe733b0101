#!/usr/bin/env bash
# Rebuilds the simulator and the instrumented code under test from /repo's
# working tree. Usage: build.sh [plain|race]
set -euo pipefail
cd "$(dirname "$0")"
kind=${1:-plain}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=${CGO_ENABLED:-1}
REPO=${GPS_REPO:-/repo}
B=${GPS_BUILD:-$PWD/.build}
mkdir -p "$B"
GOFLAGS=-mod=mod go build -modfile=go.mod -o "$B/instr" ./cmd/instr
GOFLAGS= "$B/instr" -repo "$REPO" -out "$B" -harness go.mod
if [ "$kind" = race ]; then
  # Size-specialised allocation (compiled into uninstrumented packages) does
  # not tell the race detector about fresh memory.
  GOEXPERIMENT=nosizespecializedmalloc GOFLAGS=-mod=mod go build -race -gcflags='gpsverif/...=-race=false -l' -modfile="$B/go.mod" -o "$B/harness-race" ./harness
else
  GOFLAGS=-mod=mod go build -modfile="$B/go.mod" -o "$B/harness" ./harness
fi
