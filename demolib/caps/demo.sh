#!/bin/bash
# compiles the real capabilities.rs against stand-ins for the protocol types and tries the client's capabilities one by one
D=$(cd "$(dirname "$0")" && pwd)
export W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
perl -0pe 's/^use .*?;\n//msg' crates/aptos-language-server/src/lsp/capabilities.rs > $W/caps.rs
rustc --edition 2024 -A warnings -o $W/demo $D/main.rs || exit 2
$W/demo
