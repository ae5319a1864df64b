#!/bin/bash
# builds the analysis driver and checks that a dump of /repo can be made
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$HERE/build" "$HERE/evidence"
"$HERE/dump.sh" "$HERE/build/setup-dump.json" >"$HERE/build/setup.log" 2>&1 || { tail -30 "$HERE/build/setup.log"; exit 1; }
rm -f "$HERE/build/setup-dump.json"
echo ok
