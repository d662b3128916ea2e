#!/bin/bash
# builds the repository's own project-model crate (with stand-ins for the crates it takes from
# rust-analyzer) and loads a small workspace with it, in a scratch directory
set -u
H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cp -r "$H"/{Cargo.toml,paths,vfs,base-db,stdx,pm} "$W/" && cp -r "$PWD/crates/project-model/src" "$W/pm/src" || exit 99
cd "$W" && CARGO_TARGET_DIR="$W/t" cargo build -q --offline 2> "$W/err" || { cat "$W/err"; exit 99; }
mkdir "$W/f"
HOME="$W/f/a_home" "$W/t/debug/demo" "$W/f" || exit 1
