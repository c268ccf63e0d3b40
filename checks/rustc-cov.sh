#!/bin/bash
# rustc wrapper: compiles the crate under test (and nothing else) with branch and comparison call-backs.
case " $* " in
  *" --crate-name c8s "* | *" --crate-name c8s_main "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-compares ;;
esac
exec "$@"
