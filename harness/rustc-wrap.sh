#!/bin/bash
# Adds control-flow edge callbacks (the scheduler's switch points) to the code under test; the harness
# is compiled with them too, for the generic functions it instantiates (see simrt/src/cov.rs).  Loads and
# stores are switch points in some runs.
rustc="$1"; shift
case " $* " in
 *" --crate-name async_io "*|*" --crate-name parking "*|*" --crate-name concurrent_queue "*|*" --crate-name async_lock "*|*" --crate-name harness "*)
  case " $* " in *" --crate-name harness "*) ;; *) set -- "$@" -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores;; esac
  exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-pc-table -Ccodegen-units=1;;
 *) exec "$rustc" "$@";;
esac
