#!/bin/bash
# replay.sh FILE: repeats the execution recorded in a replay file; exits 1 if it violates the property again.
file="$(realpath "$1")"
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["plan"]["prop"])' "$file") || exit 2
pkg=$(package_of "$prop") || exit 2
build "$pkg" || exit 2
exec "$(binary "$pkg")" replay "$file"
