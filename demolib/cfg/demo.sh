#!/bin/bash
# compiles the real config.rs, config/*.rs and ide-diagnostics/config.rs against stand-ins for the other crates and sets the settings one by one
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p $W/src
A=crates/aptos-language-server/src
cp -r $A/config.rs $A/config $W/src/ || exit 2
mkdir -p $W/src/shim
cp crates/ide-diagnostics/src/config.rs $W/src/shim/idc.rs
cp crates/ide-completion/src/config.rs $W/src/shim/icc.rs
find $W/src -name '*.rs' | xargs perl -pi -e 's/(?<![\w:])(ide|ide_completion|ide_db|ide_diagnostics|paths|vfs|semver|project_model|stdx|lsp_types|pathsearch|num_cpus|tracing)::/crate::shim::$1::/g'
cp $D/main.rs $W/src/main.rs
cp $D/shim.rs $W/src/shim.rs
cat > $W/Cargo.toml <<'C'
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
serde = "1"
serde_derive = "1"
serde_json = "1"
camino = { version = "1", features = ["serde1"] }
C
(cd $W && CARGO_TARGET_DIR=$W/target RUSTFLAGS="-A warnings" cargo build --offline -q) || exit 2
HOME=$W $W/target/debug/demo
