#!/bin/bash
# rustc, with a call at every basic block of the library under test
case " $* " in
*" --crate-name chopper "*) exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=2 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-prune-blocks=0 ;;
*) exec "$@" ;;
esac
