#!/bin/bash
# compiles the real search and rename code against a small stand-in for the syntax tree and runs it on annotated programs
D=$(cd "$(dirname "$0")" && pwd)
export W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
C=$PWD/crates
sed -n '/^pub fn reverse_transitive_dep_package_ids(/,/^}$/p' $C/lang/src/hir_db.rs > $W/rev.rs
grep -q all_package_ids $W/rev.rs || exit 2
printf 'pub use shim::{RootDatabase, defs, source_change, text_edit};\n#[path = "%s"] pub mod search;\n#[path = "%s"] pub mod rename;\n' $C/ide-db/src/search.rs $C/ide-db/src/rename.rs > $W/ide_db.rs
{ printf '#[path = "%s"] mod rename;\n#[path = "%s"] mod references;\n#[path = "%s"] mod highlight_related;\n' $C/ide/src/rename.rs $C/ide/src/references.rs $C/ide/src/highlight_related.rs; cat $D/main.rs; } > $W/main.rs
cd $W
R="rustc --edition 2024 -A warnings -C debuginfo=0"
$R --crate-type rlib --crate-name shim -o libshim.rlib $D/shim.rs || exit 2
E=""; for n in base_db lang memchr syntax vfs tracing itertools shim; do E="$E --extern $n=libshim.rlib"; done
$R --crate-type rlib --crate-name ide_db $E -o libide_db.rlib ide_db.rs || exit 2
$R $E --extern ide_db=libide_db.rlib -L . -o demo main.rs || exit 2
./demo
