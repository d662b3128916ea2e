# usage: . run.sh ; build_parser <repo> ; then "$PARSER_BIN"
build_parser() {
  here="$1"; repo="$2"
  W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
  cp -r "$here/Cargo.toml" "$here/src" "$here/shims" "$W/"
  cp /opt/veriftools/crates.Cargo.lock "$W/Cargo.lock"
  for f in parse parse.rs syntax_kind syntax_kind.rs syntax_error.rs; do cp -r "$repo/crates/syntax/src/$f" "$W/src/"; done
  (cd "$W" && CARGO_TARGET_DIR="$W/target" cargo build --offline -q) || { echo "harness build failed"; exit 99; }
  PARSER_BIN="$W/target/debug/parser_demo"
}
