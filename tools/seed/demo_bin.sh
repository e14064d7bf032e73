#!/bin/bash
# Builds the programs named in the first line of demo.py ("# build: mabo-lsp") from the repository in the working
# directory, and runs demo.py (beside this file) with the folder of the programs and a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/work"
args=()
for crate in $(sed -n 's,^# build: ,,p' "$here/demo.py"); do args+=(-p "$crate"); done
export CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=0
cargo build -q --offline --locked --target-dir "$scratch/target" "${args[@]}" || exit 1
cp "$here/"*.py "$scratch/work/"
cd "$scratch/work" || exit 2
timeout 100 python3 demo.py "$scratch/target/debug"
