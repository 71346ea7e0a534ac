#!/bin/bash
# Optional: builds everything once, so that the checks only rebuild what changed.
cd "$(dirname "$0")" || exit 1
export VERIF_ROOT="$PWD"
. ./build_lib.sh
build_native && build_tls && build_asan && build_miri
