#!/bin/bash
# compiles the real lsp/ext.rs and the real client_commands, with stand-ins for the other crates, and looks at what the editor client gets to read
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p $W/src
A=crates/aptos-language-server/src
perl -pe 's/(?<![\w:])(lang|syntax|lsp_types)::/crate::shim::$1::/g' $A/lsp/ext.rs > $W/src/lsp_ext.rs
sed -n '/^    pub fn client_commands(/,/^    }$/p' $A/config.rs > $W/src/client_commands.rs
grep -q ClientCommandsConfig $W/src/client_commands.rs || exit 2
{ echo '#[derive(Clone, Debug)]'; sed -n '/^pub struct ClientCommandsConfig/,/^}$/p' $A/config.rs; echo 'impl crate::Config {'; cat $W/src/client_commands.rs; echo '}'; } > $W/src/cc.rs
cp $D/main.rs $D/shim.rs $W/src/
cat > $W/Cargo.toml <<'C'
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
serde = { version = "1", features = ["derive"] }
serde_json = "1"
camino = { version = "1", features = ["serde1"] }
C
(cd $W && CARGO_TARGET_DIR=$W/target RUSTFLAGS="-A warnings" cargo build --offline -q) || exit 2
$W/target/debug/demo
