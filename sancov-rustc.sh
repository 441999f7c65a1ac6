#!/bin/bash
# RUSTC_WRAPPER: adds coverage/compare callbacks to the crates that hold the code under test.
# (stable toolchain: the LLVM pass is requested by name, the callbacks live in harness/src/rt.rs)
rustc="$1"; shift
case " $* " in
  *" --crate-name der_parser "*|*" --crate-name sut "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-compares \
      -Ccodegen-units=1 ;;
esac
exec "$rustc" "$@"
