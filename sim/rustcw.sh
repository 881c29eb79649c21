#!/bin/bash
# rustc, except that every basic block of the opsqueue crate (and of the generic
# code it instantiates) becomes a point where the simulator may switch threads.
case " $* " in
*" --crate-name opsqueue "*) exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc ;;
esac
exec "$@"
