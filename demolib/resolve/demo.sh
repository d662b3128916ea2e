#!/bin/bash
# the real code action handlers, id text and resolve strategies, cut out of their files, against a small list of assists
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p $W/src
A=crates/aptos-language-server/src
fn() { sed -n "/^\(pub(crate) \|pub \)\?fn $2(/,/^}\$/p" $1; }
{ for f in handle_code_action handle_code_action_resolve parse_action_id resource_ops_supported; do fn $A/handlers/request.rs $f; done; } > $W/src/handlers.rs
fn $A/lsp/to_proto.rs code_action > $W/src/to_proto_fn.rs
grep -q parse_action_id $W/src/handlers.rs && grep -q CodeActionData $W/src/to_proto_fn.rs || exit 2
{ cat $D/head.rs; cat $W/src/handlers.rs; } > $W/src/request.rs
{ cat $D/head.rs; cat $W/src/to_proto_fn.rs; echo 'pub(crate) fn code_action_kind(k: AssistKind) -> lsp_types::CodeActionKind { lsp_types::CodeActionKind(k.name().to_string()) }'
  echo 'pub(crate) fn workspace_edit(_: &GlobalStateSnapshot, it: SourceChange) -> Cancellable<lsp_types::WorkspaceEdit> { Ok(lsp_types::WorkspaceEdit { document_changes: Some(it.0) }) }'; } > $W/src/to_proto.rs
sed "s/^use syntax::/use crate::syntax::/" crates/ide-db/src/assists.rs > $W/src/assists.rs
cp $D/main.rs $W/src/main.rs
cp $D/shim.rs $W/src/shim.rs
cat > $W/Cargo.toml <<'C'
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
serde = { version = "1", features = ["derive"] }
serde_json = "1"
anyhow = "1"
tracing = "0.1"
C
(cd $W && CARGO_TARGET_DIR=$W/target RUSTFLAGS="-A warnings" cargo build --offline -q) || exit 2
$W/target/debug/demo
