#!/bin/bash
# Builds the simulator once, which fills the build cache. Offline.
cd "$(dirname "$0")/../sim" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
cp -r . "$T/sim" && cd "$T/sim" || exit 1
go build -o "$T/instr" ./instr &&
    go vet ./simrt ./core ./model >/dev/null 2>&1
go build -tags clibs -o "$T/a" ./cmd/simrun && go build -race -tags clibs -o "$T/b" ./cmd/simrun && go test ./model
