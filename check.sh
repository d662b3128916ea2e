#!/bin/bash
# usage: check.sh <PROPERTY> ; analyses /repo's current tree
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
export VERIF_REPO="${VERIF_REPO:-/repo}"
bin="$here/engine/target/release/sa"
if [ ! -x "$bin" ]; then bash "$here/setup.sh" || { echo "engine build failed"; exit 2; }; fi
exec "$bin" "$1"
