#!/bin/bash
# check.sh PROPERTY: rebuilds the simulator from /repo's working tree and
# explores the property. VERIF_SEED and VERIF_TIER select seed and depth.
cd "$(dirname "$0")" || exit 2
. ./env.sh
./build.sh || { echo "build failed" >&2; exit 2; }
exec ./build/sim run -prop "$1" -seed "${VERIF_SEED:-1}" -tier "${VERIF_TIER:-quick}" -dir "$PWD"
