#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulation from /repo's current tree and runs it.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"
. ./env.sh
pkg=$(package_of "$prop") || { echo "unknown property $prop"; exit 2; }
build "$pkg" || exit 2
mkdir -p evidence replays
exec "$(binary "$pkg")" check "$prop" "$tier"
