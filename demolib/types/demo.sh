#!/bin/bash
# compiles the type representation and unification, cut out of the real sources, with small stand-ins for the rest
here="$(cd "$(dirname "$0")" && pwd)"; repo="$(pwd)"
W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
python3 "$here/extract.py" "$repo" "$here" "$W" || exit 99
(ulimit -c 0; timeout 60 "$W/demo")
