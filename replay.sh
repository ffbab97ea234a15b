#!/bin/bash
# replay.sh FILE: replays a violation (exit 1 if it is still there).
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
exec ./build/sim replay -known known-findings.txt "$1"
