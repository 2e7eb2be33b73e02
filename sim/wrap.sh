#!/bin/bash
# rustc wrapper of the build with callbacks: the crates that hold library code report every branch, load and
# store; the simulator itself does not
n=; p=; for a in "$@"; do [ "$p" = --crate-name ] && n=$a; p=$a; done
case "$n" in
 rustdct|rustfft|transpose|strength_reduce|dctinst)
  case $n in rustdct|dctinst) set -- "$@" -Copt-level=0 '-Cpasses=default<O2>';; esac; exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores;;
 dctcore) exec "$@" --cfg instr;;
 dctsim) exec "$@" -Clink-arg=-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset;;
 *) exec "$@";;
esac
