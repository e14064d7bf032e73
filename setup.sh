#!/bin/sh
# Checks build everything themselves, from /repo's current tree; this only shows that the tools are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence target replays
python3 -c "import json; json.load(open('known_findings.json'))"
cargo --version
CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true cargo build --offline --manifest-path harness/Cargo.toml
