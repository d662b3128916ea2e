#!/bin/bash
# builds the analyser from the committed sources, offline
set -e
cd "$(dirname "$0")/engine"
cargo build --release --offline -q 2>&1 | grep -v '^warning' || true
test -x target/release/sa
