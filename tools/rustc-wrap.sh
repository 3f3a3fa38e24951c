#!/bin/bash
# RUSTC_WRAPPER: instruments the crates under test (and the scenario crates, into which their
# generic code is compiled) with SanitizerCoverage callbacks: every edge, load and store calls
# into the simulator's scheduler. Everything else is compiled unchanged.
rustc="$1"; shift
name=""; kind=""; prev=""
for a in "$@"; do
  case "$prev" in
    --crate-name) name="$a";;
    --crate-type) kind="$kind $a";;
  esac
  prev="$a"
done
case "$name" in
  pasture_core|pasture_algorithms|pasture_io|pcheck|iocheck)
    case "$kind" in
      *proc-macro*) ;;
      *) exec env RUSTC_BOOTSTRAP=1 "$rustc" "$@" -Cpasses=sancov-module \
           -Cllvm-args=-sanitizer-coverage-level=3 \
           -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
           -Cllvm-args=-sanitizer-coverage-trace-loads \
           -Cllvm-args=-sanitizer-coverage-trace-stores ;;
    esac;;
esac
exec "$rustc" "$@"
