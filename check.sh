#!/bin/bash
# usage: check.sh build | check.sh check PROPERTY TIER | check.sh replay FILE
# Builds the simulator and, from /repo's current tree, the simulated system;
# then runs the requested command.
cd "$(dirname "$0")" || exit 2
V=$PWD
B=${SIM_BUILD:-$V/.build}
export SIM_VERIF=${SIM_VERIF:-$V}
mkdir -p "$B" || exit 2
(cd simctl && env -u GOROOT GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GO111MODULE=on GOFLAGS= CGO_ENABLED=0 GOCACHE="$B/gocache" \
  /opt/veriftools/go1.23.12/bin/go build -o "$B/simctl.$$" . && mv -f "$B/simctl.$$" "$B/simctl") || { echo "ERROR: building simctl"; exit 2; }
exec "$B/simctl" "$@"
