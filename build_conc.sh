#!/bin/bash
# Builds the interleaving checker over the sources in /repo's working tree: build/conc/t/{prod,testutil}/release/checker
set -e -o pipefail
cd "$(dirname "$0")"
export HOME=/root RUSTUP_TOOLCHAIN=1.97.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR RUSTC_WRAPPER RUSTFLAGS
REPO=/repo
mkdir -p build/conc
exec 9> build/conc/lock
flock 9
SRC=$( (cd $REPO; find src -type f | LC_ALL=C sort | xargs sha256sum; cd - > /dev/null; find conc build_conc.sh -type f -not -path '*/target/*' | LC_ALL=C sort | xargs sha256sum) | sha256sum | cut -c1-40)
[ "$(cat build/conc/hash 2>/dev/null)" = "$SRC" ] && exit 0
rm -f "$PWD/build/conc/hash"
[ -d build/conc/src ] && find build/conc/src -type f -delete
mkdir -p build/conc/src
cp -r $REPO/src/. build/conc/src/
cp conc/js_standin.rs build/conc/src/js.rs
# methods on `self: Arc<Self>`, also where Arc is the checker's
sed -i '1s/^/#![feature(arbitrary_self_types)] /' build/conc/src/lib.rs
export RUSTC_BOOTSTRAP=wasmtimer,vsched
find build/conc/src -type f | xargs touch
for v in prod testutil; do
  feat=""; [ $v = testutil ] && feat="--features testutil"
  if ! (cd conc/checker && cargo build --offline -q --locked --release $feat --target-dir ../../build/conc/t/$v) > build/conc/$v.log 2>&1; then
    cat build/conc/$v.log; echo "BUILD ERROR: conc $v"; exit 2
  fi
done
echo "$SRC" > build/conc/hash
