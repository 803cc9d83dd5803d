#!/bin/bash
# build.sh PROFILE...: builds the monitor against /repo's current working tree.
# Profiles: checked, release, dev, asan, miri. Output under /verif/target (ignored by git).
set -u
cd "$(dirname "$0")/../harness" || exit 2
T="$(cd .. && pwd)/target"
mkdir -p "$T" || exit 2
exec 9>"$T/.build-lock"
flock 9
# File times are not trusted: a changed source tree forgets everything built from the old one.
H=$( (cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum) | sha256sum | cut -d' ' -f1)
for p in "$@"; do
  dir=$p; [ "$p" = dev ] && dir=debug
  S="$T/.tree-$p"
  export CARGO_TARGET_DIR="$T" CARGO_NET_OFFLINE=true
  unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
  TC=+stable; extra=(--profile "$p")
  if [ "$p" = asan ]; then
    TC=+nightly
    export CARGO_TARGET_DIR="$T/asan" RUSTFLAGS="-Zsanitizer=address"
    extra=(--profile checked --target x86_64-unknown-linux-gnu)
    dir=asan
  fi
  if [ "$p" != miri ] && [ "$(cat "$S" 2>/dev/null)" != "$H" ]; then
    rm -f "$S"
    cargo $TC clean --offline -q -p gvas "${extra[@]}" 2>/dev/null
    cargo $TC clean --offline -q -p vmon "${extra[@]}" 2>/dev/null
  fi
  if [ "$p" = miri ]; then
    bash ../tools/miri-build.sh "$T" >"$T/build-miri.log" 2>&1 || { tail -40 "$T/build-miri.log" >&2; echo "BUILD-FAILED profile=miri" >&2; exit 2; }
    continue
  fi
  if ! cargo $TC build --offline -q "${extra[@]}" 2>"$T/build-$p.log"; then
    tail -40 "$T/build-$p.log" >&2
    echo "BUILD-FAILED profile=$p" >&2
    exit 2
  fi
  if [ "$p" = asan ]; then cp -f "$T/asan/x86_64-unknown-linux-gnu/checked/vmon" "$T/asan/vmon" || exit 2; fi
  echo "$H" > "$S"
done
exit 0
