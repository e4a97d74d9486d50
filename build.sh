#!/bin/bash
# Builds the harness (and with it the real crate from /repo's working tree) for
# the given variants: prod testutil plain-prod plain-testutil. Output: build/v/VARIANT.
set -e -o pipefail
cd "$(dirname "$0")"
export HOME=/root RUSTUP_TOOLCHAIN=1.97.0 CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR RUSTC_WRAPPER
export RUSTFLAGS="-C link-arg=-zstack-size=262144"
REPO=/repo
mkdir -p build/v
exec 9> build/lock
flock 9
SRC=$( (cd $REPO; find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum; cd - > /dev/null; find harness/src harness/Cargo.toml harness/Cargo.lock build.sh -type f | LC_ALL=C sort | xargs sha256sum) | sha256sum | cut -c1-40)
if [ "$(cat build/src.hash 2>/dev/null)" != "$SRC" ]; then
  # cargo goes by mtime: a restored older file must not leave a stale build behind
  for d in build/t/prod build/t/testutil; do
    [ -d $d ] && (cd harness; cargo clean --offline -q -p wasmtimer -p verif-harness --release --target wasm32-unknown-unknown --target-dir ../$d;
      [ -d ../$d/wasm32-unknown-unknown/plain ] && cargo clean --offline -q -p wasmtimer -p verif-harness --profile plain --target wasm32-unknown-unknown --target-dir ../$d || true)
  done
  for v in prod testutil plain-prod plain-testutil; do [ -e build/v/$v/hash ] && rm -f "$PWD/build/v/$v/hash"; done
  echo "$SRC" > build/src.hash
fi
for v in "$@"; do
  [ "$(cat build/v/$v/hash 2>/dev/null)" = "$SRC" ] && continue
  prof=release; case $v in plain-*) prof=plain;; esac
  feat=""; base=prod; case $v in *testutil) feat="--features testutil"; base=testutil;; esac
  if ! (cd harness && cargo build --offline -q --locked --profile $prof $feat --target wasm32-unknown-unknown --target-dir ../build/t/$base) > build/$v.log 2>&1; then
    cat build/$v.log; echo "BUILD ERROR: $v"; exit 2
  fi
  mkdir -p build/v/$v
  /opt/wasm-bindgen/bin/wasm-bindgen --target web --no-typescript --out-dir build/v/$v build/t/$base/wasm32-unknown-unknown/$prof/verif_harness.wasm >> build/$v.log 2>&1 || { cat build/$v.log; echo "BUILD ERROR: bindgen $v"; exit 2; }
  echo "$SRC" > build/v/$v/hash
done
