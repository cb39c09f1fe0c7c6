#!/bin/bash
# Builds demo.rs against the tree in the current directory, in a scratch folder; 0 if it behaves.
set -u
here=$(cd "$(dirname "$0")" && pwd)
tree=$(pwd)
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
tar -xzf "$here/kit.tar.gz" -C "$work" || exit 3
sed -i "s#\"/repo/#\"$tree/#" "$work"/wrap/*/Cargo.toml
cp "$here/demo.rs" "$work/demo/src/main.rs"
cd "$work" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
unset RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
cargo build --offline -q -p demo >"$work/log" 2>&1 || { tail -30 "$work/log"; exit 3; }
(ulimit -v 8000000; timeout 100 "$work/target/debug/demo")
