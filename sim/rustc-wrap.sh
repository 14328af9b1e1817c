#!/bin/bash
# RUSTC_WRAPPER: compile the code under test (and the workload crate, which
# instantiates its generic functions) with a call at every basic-block edge.
# That call is the simulator's preemption point. Nothing in /repo changes.
rustc="$1"; shift
case " $* " in
  *" --crate-name layered_nlp "*|*" --crate-name layered_amount "*|*" --crate-name layered_clauses "*|*" --crate-name layered_part_of_speech "*|*" --crate-name lsim "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=16 --cap-lints allow ;;
  *) exec "$rustc" "$@" --cap-lints allow ;;
esac
