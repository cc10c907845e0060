#!/bin/bash
# Builds simstd and the harness against the working tree of /repo (override: POKERS_SRC is not supported on purpose).
# Prints the path of the harness binary on the last line. Exit 3 when it does not build.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
VERIF="$(dirname "$HERE")"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export PATH="/root/.cargo/bin:$PATH"
T="${VERIF_TARGET:-$VERIF/target}"
mkdir -p "$T/simstd"
(
  flock 9
  HASH=$(cat "$HERE"/simstd/*.rs "$HERE/wrap.sh" | sha256sum | cut -c1-16)
  RLIB="$T/simstd/$HASH/libsimstd.rlib"
  if [ ! -f "$RLIB" ]; then
    mkdir -p "$T/simstd/$HASH"
    rustc --edition 2024 -C opt-level=3 --crate-type rlib --crate-name simstd -A warnings \
      "$HERE/simstd/lib.rs" -o "$RLIB.tmp.rlib" >&2 || exit 3
    mv "$RLIB.tmp.rlib" "$RLIB"
  fi
  export SIMSTD_RLIB="$RLIB"
  export RUSTC_WRAPPER="$HERE/wrap.sh"
  export CARGO_TARGET_DIR="$T/build"
  export RUSTFLAGS="--extern simstd=$RLIB -L dependency=$(dirname "$RLIB") --cfg getrandom_backend=\"custom\" --cfg simstd_$HASH -A unexpected_cfgs"
  # cargo judges freshness by mtime; always ask rustc about the crate under test
  rm -rf "$T"/build/release/.fingerprint/pokers-*
  cargo build --release --offline --locked --manifest-path "$HERE/harness/Cargo.toml" >&2 || exit 3
) 9>"$T/lock" || exit 3
echo "$T/build/release/harness"
