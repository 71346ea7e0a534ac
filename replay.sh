#!/bin/bash
# replay.sh <replay file>: rebuilds from /repo and runs the recorded case. Exit 1 while it still fails.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
. ./build_lib.sh
prop="$(sed -n 's/.*"property": *"\([^"]*\)".*/\1/p' "$1" | head -n 1)"
build_for "$prop" || exit 2
exec "$BIN" replay "$1"
