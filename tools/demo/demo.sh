#!/bin/bash
# Runs in the repository's directory: builds a small program on the crate found
# there, in a scratch directory, and runs it on a virtual host. 0: behaves; 1: not.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
S=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'find "$S" -delete' EXIT
cp "$D"/demo/* "$S"/ || exit 3
mkdir "$S/src" && mv "$S/lib.rs" "$S/prelude.rs" "$S/src/" || exit 3
sed -i "s|@REPO@|$R|" "$S/Cargo.toml"
unset CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER RUSTFLAGS
export HOME=/root RUSTUP_TOOLCHAIN=1.97.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
cd "$S" || exit 3
cargo build --offline -q --target wasm32-unknown-unknown --target-dir "$S/target" 2> "$S/log" || { cat "$S/log"; exit 3; }
/opt/wasm-bindgen/bin/wasm-bindgen --target nodejs --no-typescript --out-dir "$S/out" "$S/target/wasm32-unknown-unknown/debug/demo.wasm" || exit 3
timeout 120 node "$S/host.cjs" "$S/out/demo.js"
R=$?
[ $R = 0 ] && echo "demo: ok" || echo "demo: FAILED ($R)"
exit $R
