#!/bin/bash
# RUSTC_WRAPPER: compiles the crate under test against the simulated standard library.
rustc="$1"; shift
name=""
prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
if [ "$name" = "pokers" ]; then
  exec "$rustc" "$@" --extern "std=$SIMSTD_RLIB"
fi
exec "$rustc" "$@"
