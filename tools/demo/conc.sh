#!/bin/bash
# Runs in the repository's directory: links the timer sources found there against scheduled
# stand-ins for the shared-memory primitives and runs every interleaving (with few preemptions)
# of small two-thread programs. 0: none fails; 1: one fails.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
S=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'find "$S" -delete' EXIT
cp -r "$D/conc" "$S/conc" && mkdir -p "$S/build/conc" && cp -r "$R/src" "$S/build/conc/src" && cp "$S/conc/js_standin.rs" "$S/build/conc/src/js.rs" || exit 3
sed -i '1s/^/#![feature(arbitrary_self_types)] /' "$S/build/conc/src/lib.rs"
unset CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER RUSTFLAGS
export RUSTC_BOOTSTRAP=wasmtimer,vsched HOME=/root RUSTUP_TOOLCHAIN=1.97.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
cd "$S/conc/checker" || exit 3
cargo build --offline -q --locked --release @VARIANT@ --target-dir "$S/target" 2> "$S/log" || { cat "$S/log"; exit 3; }
for s in @ARGS@; do echo "$s 3 4000000000"; done > "$S/in"
timeout 200 "$S/target/release/checker" worker < "$S/in" > "$S/out" 2>&1 || { tail -3 "$S/out"; echo "demo: FAILED (crash)"; exit 1; }
if [ "$(grep -c '"deepest"' "$S/out")" != "$(wc -l < "$S/in")" ]; then tail -1 "$S/out" | cut -c1-400; echo "demo: FAILED"; exit 1; fi
echo "demo: ok"
