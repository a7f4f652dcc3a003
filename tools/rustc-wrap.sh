#!/bin/bash
# Instruments the code under test, and nothing else, with control-flow edge callbacks
# (SIM_SANCOV=mem: with memory access callbacks too).
r=$1; shift
case " $* " in
*" --crate-name ibig "*|*" --crate-name sut "*)
  m=()
  [ "$SIM_SANCOV" = mem ] && m=(-Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores)
  exec "$r" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard "${m[@]}";;
*) exec "$r" "$@";;
esac
