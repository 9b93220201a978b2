#!/bin/bash
# RUSTC_WRAPPER: the crate svdtools itself is compiled with a callback at every branch, load and
# store (LLVM's sanitizer coverage), so that the simulated scheduler can preempt a thread there.
# The callbacks are in simkernel/sim.c. Dependencies and the standard library are left alone.
r=$1; shift
name= p=
for a in "$@"; do [ "$p" = --crate-name ] && name=$a; p=$a; done
case $name in
svdtools) exec "$r" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard \
    -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores -C link-arg=-Wl,--unresolved-symbols=ignore-all ;;
libdriver) exec "$r" "$@" -C link-arg=-Wl,--unresolved-symbols=ignore-all ;;
esac
exec "$r" "$@"
