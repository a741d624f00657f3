#!/bin/bash
# Coverage edges (the simulator's preemption points and step counter) go into the library
# and the archive reader only.
case " $* " in
*" --crate-name s2protocol "*|*" --crate-name nom_mpq "*)
  exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard;;
*) exec "$@";;
esac
