#!/bin/bash
# Builds the small program beside this file against /repo's flowistry and runs it in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
cp -r "$here/lib" "$t/lib" && cp "$here/check.rs" "$t/lib/src/check.rs" || exit 9
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2025-08-20 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$t/target" SYSROOT="$(ls -d /root/.rustup/toolchains/nightly-2025-08-20* | head -1)"
export LD_LIBRARY_PATH="$SYSROOT/lib"
cd "$t/lib" || exit 9
cargo build --offline -q >"$t/log" 2>&1 || { tail -20 "$t/log"; exit 8; }
"$t/target/debug/demo" "$t" 2>&1 | tee "$t/out" | tail -5
grep -q '^checked' "$t/out"
