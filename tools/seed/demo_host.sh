#!/bin/bash
# Run with cwd = the repository. Interprets demo.rs against it as on other hosts (Miri, offline); 0 = the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" && cp "$here/Cargo.lock.demo" "$d/Cargo.lock" || exit 2
sed "s|@REPO@|$repo|g" "$here/Cargo.toml.in" > "$d/Cargo.toml"
cd "$d" || exit 2
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true XDG_CACHE_HOME="$d/cache"
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-permissive-provenance -Zmiri-disable-validation -Zmiri-disable-stacked-borrows"
cargo +nightly miri run --offline --quiet --target "$(cat "$here/host")" 2> err
r=$?
grep -v '^warning\|^ *|\|^ *=' err | head -40 >&2
exit $r
