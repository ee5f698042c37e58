#!/bin/bash
# Builds the harness crate twice (native and symbolic) against /repo's current source tree.
set -e
H=$(cd "$(dirname "$0")" && pwd)
REPO=${VT_REPO:-/repo}
T=${VT_TARGET:-$H/target}
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR CARGO_PROFILE_DEV_DEBUG CARGO_PROFILE_DEV_OPT_LEVEL
export RUSTFLAGS="--emit=llvm-ir -C no-vectorize-slp -C no-vectorize-loops -C linker=$H/bin/symld"
exec 9>"$T.lock"; flock 9
S=$( (cd "$REPO" && find src urdf Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum; cd "$H" && find symrt harness bin irsym.py -type f -not -path '*/target/*' | LC_ALL=C sort | xargs sha256sum) | sha256sum)
D="$T/x86_64-unknown-linux-gnu/debug"
if [ -f "$T/.stamp" ] && [ "$(cat "$T/.stamp")" = "$S" ] && [ -x "$D/harness" ] && [ -x "$D/harness.sym" ]; then exit 0; fi
rm -f "$T/.stamp" "$D/harness.sym"
cd "$H/harness"
ARGS="--offline --target x86_64-unknown-linux-gnu --target-dir $T"
[ -d "$T/x86_64-unknown-linux-gnu" ] && (cd "$H/harness" && cargo clean -q -p k -p harness $ARGS 2>/dev/null) || rm -rf "$T/x86_64-unknown-linux-gnu"
cargo build -q $ARGS 9>&-
X=$(ls -t "$D"/deps/harness-*.sym | head -1)
cp "$X" "$D/harness.sym"; cp "$X.json" "$D/harness.sym.json"
echo "$S" > "$T/.stamp"
