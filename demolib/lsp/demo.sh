#!/bin/bash
# compiles the functions, cut out of the real sources, with small stand-ins for external crates
here="$(cd "$(dirname "$0")" && pwd)"; repo="$(pwd)"
W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
python3 "$here/extract.py" "$repo" "$here" "$W" $(cat "$here/items") || exit 99
timeout 60 "$W/demo"
