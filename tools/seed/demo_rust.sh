#!/bin/bash
# Builds and runs main.rs (beside this file) against the crates of the repository in the working directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/src"
cp "$here/main.rs" "$scratch/src/main.rs"
cp "$repo/Cargo.lock" "$scratch/Cargo.lock"
{
    printf '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[profile.dev]\ndebug = 0\n[dependencies]\n'
    for dep in $(sed -n 's,^// deps: ,,p' "$here/main.rs"); do
        case $dep in
            mabo*+*) printf '%s = { path = "%s/crates/%s", features = ["%s"] }\n' "${dep%%+*}" "$repo" "${dep%%+*}" "${dep#*+}" ;;
            mabo*) printf '%s = { path = "%s/crates/%s" }\n' "$dep" "$repo" "$dep" ;;
            *) printf '%s = "*"\n' "$dep" ;;
        esac
    done
} >"$scratch/Cargo.toml"
if [ -f "$here/schema.mabo" ]; then
    cp "$here/schema.mabo" "$scratch/src/schema.mabo"
    printf '[build-dependencies]\nmabo-build = { path = "%s/crates/mabo-build" }\n' "$repo" >>"$scratch/Cargo.toml"
    printf '[package]\nname = "demo"\nfiles = ["src/*.mabo"]\n' >"$scratch/Mabo.toml"
    printf 'fn main() { mabo_build::Compiler::default().compile(".").unwrap(); }\n' >"$scratch/build.rs"
fi
cd "$scratch" || exit 2
export CARGO_TARGET_DIR="$scratch/target" CARGO_NET_OFFLINE=true
cargo build -q --offline || exit 1
timeout 120 "$scratch/target/debug/demo"
