#!/bin/bash
# compiles the real visibility and item scope code against a small stand-in for the syntax tree and asks who sees what
D=$(cd "$(dirname "$0")" && pwd)
export W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
C=$PWD/crates
sed -n '/^pub fn item_scope(/,/^}$/p' $C/lang/src/hir_db.rs > $W/item_scope_fn.rs
grep -q item_scopes $W/item_scope_fn.rs || exit 2
printf '#[path = "%s"] pub mod visibility;\n#[path = "%s"] mod vis_tokens;\n' $C/syntax/src/ast/visibility.rs $C/syntax/src/ast/node_ext/visibility.rs > $W/vis_mods.rs
printf '#[path = "%s"] pub mod is_visible;\n' $C/lang/src/nameres/is_visible.rs > $W/vis_path.rs
printf '#[path = "%s"] pub mod item_scope;\n' $C/lang/src/item_scope.rs > $W/scope_path.rs
cd $W
R="rustc --edition 2024 -A warnings -C debuginfo=0"
$R --crate-type proc-macro --crate-name pm --extern proc_macro $D/pm.rs || exit 2
$R --crate-type rlib --crate-name shim -o libshim.rlib $D/shim.rs || exit 2
$R --extern shim=libshim.rlib --extern base_db=libshim.rlib --extern syntax=libshim.rlib --extern salsa_macros=libpm.so --extern serde=libpm.so -o demo $D/main.rs || exit 2
./demo
