#!/bin/sh
# RUSTC_WRAPPER: adds LLVM's sanitizer-coverage callbacks to the code that runs
# *under* the simulator (the library, its map crates, and the crate that
# instantiates its generics) and to nothing else. The callbacks are the
# simulator's preemption points and its clock; they live in rt.
rustc=$1; shift
name=; prev=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name=$a
  prev=$a
done
case "$name" in
yaml_peg|sut|ritelinked|griddle|hashbrown)
  exec "$rustc" "$@" -C passes=sancov-module \
    -C llvm-args=-sanitizer-coverage-level=3 \
    -C llvm-args=-sanitizer-coverage-trace-pc-guard \
    -C llvm-args=-sanitizer-coverage-trace-loads \
    -C llvm-args=-sanitizer-coverage-trace-stores \
    -A warnings ;;
esac
exec "$rustc" "$@"
