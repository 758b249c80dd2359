#!/bin/bash
# Builds every simulation once.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
for p in C01 C10 C20 C30 C40; do
  pkg=$(package_of "$p")
  [ -d "$(workspace "$pkg")/$pkg" ] && { build "$pkg" || exit 1; }
done
mkdir -p evidence replays
