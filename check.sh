#!/bin/bash
# check.sh <property> [quick|thorough] [engine options...]
# Builds the check for a property from /repo's working tree and runs it.
cd "$(dirname "$0")" || exit 2
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
bin=$(awk -v p="$prop" '$1==p{print $2}' checks/INDEX)
[ -n "$bin" ] || { echo "no check for $prop" >&2; exit 2; }
export VERIF_DIR="$PWD"
log=$(mktemp /tmp/vbuildXXXXXX)
if ! make -s -j8 "build/$bin" >"$log" 2>&1; then cat "$log" >&2; rm -f "$log"; echo "build failed" >&2; exit 2; fi
rm -f "$log"
exec "build/$bin" --prop "$prop" --tier "$tier" "$@"
