#!/bin/sh
# RUSTC_WRAPPER: reports every edge, variable index, load and store of the library and the facade.
case " $* " in
*" --crate-name crypto_pure "* | *" --crate-name facade "*)
  exec "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
    -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-trace-geps \
    -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores
  ;;
esac
exec "$@"
