#!/bin/bash
# Builds the tool from the repository in the current directory and runs demo.py with it.
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d /tmp/demo-XXXXXX)
trap 'rm -rf "$D"' EXIT
[ ! -f "$H/flags" ] || export DEMO_FLAGS="$(cat "$H/flags")"
bash "$H/build.sh" "$D" > "$D/log" 2>&1 || { cat "$D/log"; echo "does not build"; exit 2; }
export REPO=$PWD
cd "$D" && mkdir w && cd w && python3 "$H/demo.py" "$D/stl-to-ps"
