#!/bin/sh
# RUSTC_WRAPPER: reports every edge of the library and the facade.
case " $* " in
*" --crate-name crypto_pure "* | *" --crate-name facade "*)
  exec "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard
  ;;
esac
exec "$@"
