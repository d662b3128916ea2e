#!/bin/bash
# compiles the real setup_client_file_watchers and switch_workspaces against stand-ins and looks at what is watched
D=$(cd "$(dirname "$0")" && pwd)
export W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
R=crates/aptos-language-server/src/reload.rs
{ echo 'impl GlobalState {'; for f in setup_client_file_watchers switch_workspaces; do sed -n "/^    \(pub(crate) \|pub \)\?fn $f(/,/^    }$/p" $R; done; echo '}'; } > $W/real.rs
grep -q switch_workspaces $W/real.rs && grep -q setup_client_file_watchers $W/real.rs || exit 2
rustc --edition 2024 -A warnings -o $W/demo $D/main.rs || exit 2
$W/demo
