#!/bin/bash
# Run with cwd = the repository. Builds demo.rs against it in a scratch folder; 0 = the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" && cp "$here/Cargo.lock.demo" "$d/Cargo.lock" || exit 2
sed "s|@REPO@|$repo|g" "$here/Cargo.toml.in" > "$d/Cargo.toml"
cd "$d" || exit 2
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cargo build --offline --quiet || exit 3
timeout -s KILL 60 "$d/target/debug/demo"
