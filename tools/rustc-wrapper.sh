#!/bin/bash
# cargo RUSTC_WRAPPER: compile the crates under test (for the simulated target only, never for
# build scripts or proc macros) with edge callbacks. The simulator defines the callbacks: they are
# its preemption points and its coverage measure.
rustc="$1"; shift
name= target= prev=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name="$a"
  [ "$prev" = --target ] && target="$a"
  prev="$a"
done
if [ -n "$target" ]; then
  case "$name" in
    bitcoin_cash|bitcoin_cash_base|bitcoin_cash_slp|bitcoin_cash_ecc|rust_ecc_shim)
      exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  esac
fi
exec "$rustc" "$@"
