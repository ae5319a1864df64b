#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   (cwd-independent)
HERE=$(cd "$(dirname "$0")" && pwd)
P=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
mkdir -p "$HERE/build" "$HERE/evidence"
D="$HERE/build/dump-$$.json"
trap 'rm -f "$D"' EXIT
"$HERE/dump.sh" "$D" >"$HERE/build/dump-$$.log" 2>&1 || { echo "error: the analysed tree could not be compiled"; tail -30 "$HERE/build/dump-$$.log"; rm -f "$HERE/build/dump-$$.log"; exit 3; }
rm -f "$HERE/build/dump-$$.log"
cd "$HERE" && python3 -B -m sa.check "$D" "$P"
