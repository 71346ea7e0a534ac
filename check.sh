#!/bin/bash
# check.sh <property id> [quick|thorough]: builds from /repo's working tree and decides one property.
# Exit 0: held. Exit 1: VIOLATION printed. Exit 2: the check itself could not run.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
prop="${1:?property id}"
tier="${2:-${VERIF_TIER:-quick}}"
. ./build_lib.sh
build_for "$prop" || exit 2
if needs_asan "$prop"; then
  build_asan || exit 2
  export VZ_ASAN_BIN="$ASAN_BIN"
fi
if needs_miri "$prop"; then
  build_miri || exit 2
  export VZ_MIRI_DIR="$PWD/harness"
  export CARGO_TARGET_DIR="$VZ_TARGET/miri"
fi
exec "$BIN" run "$prop" "$tier"
