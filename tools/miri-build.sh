#!/bin/bash
# miri-build.sh TARGET_DIR: builds the interpreter driver; a changed /repo is rebuilt.
cd "$(dirname "$0")/../miri" || exit 2
export CARGO_TARGET_DIR="$1/miri" CARGO_NET_OFFLINE=true MIRIFLAGS="-Zmiri-disable-isolation"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
S="$1/.tree-miri"
H=$( (cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum) | sha256sum | cut -d' ' -f1)
if [ "$(cat "$S" 2>/dev/null)" != "$H" ]; then
  rm -f "$S"
  cargo +nightly miri clean --offline >/dev/null 2>&1 || rm -rf "$CARGO_TARGET_DIR/miri"
fi
# an empty pack: builds, starts and stops
P="$1/empty.pack"
printf '\0\0\0\0\0\0\0\0' > "$P" || exit 2
cargo +nightly miri run -q --offline -- "$P" 1 || exit 2
echo "$H" > "$S"
