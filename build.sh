#!/bin/bash
# Builds /verif/.build/sim (with SIM_RACE=1: /verif/.build/simrace, with the race
# detector) from /repo's current working tree.
set -e
export HOME=/root PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOENV=off GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
V=$(cd "$(dirname "$0")" && pwd)
B=${SIM_OUT:-$V/.build}   # both only differ for planted bugs
R=${SIM_REPO:-/repo}
mkdir -p "$B"
( cd "$V/tools" && GOFLAGS= go build -o "$B/simbuild" ./simbuild )
SIM_GOROOT=$(go env GOROOT) "$B/simbuild" -repo "$R" -sim "$V/sim" -out "$B/overlay" 
cd "$R"
export GOEXPERIMENT=norandomizedheapbase64 GOFLAGS=-mod=mod
if [ -n "$SIM_RACE" ]; then
	CGO_ENABLED=1 go build -race -tags faketime,netgo,osusergo -overlay "$B/overlay/overlay.json" -o "$B/simrace" ./cmd/kache
else
	CGO_ENABLED=0 go build -tags faketime -overlay "$B/overlay/overlay.json" -o "$B/sim" ./cmd/kache
fi
