#!/bin/bash
# Builds the simulator against /repo's working tree into build/sim. The seams
# program generates an overlay for that tree (nothing in /repo is changed).
cd "$(dirname "$0")" || exit 2
. ./env.sh
export GOWORK=$PWD/sim/go.work
mkdir -p build
(cd seams && GOWORK=off go build -o ../build/seamgen .) || exit 2
rm -rf "$PWD/build/overlay"
./build/seamgen "${REPO:-/repo}" "$PWD/sim" "$PWD/build/overlay" || exit 2
cd sim && exec go build -overlay ../build/overlay/overlay.json -o ../build/sim .
