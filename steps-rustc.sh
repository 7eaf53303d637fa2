#!/bin/bash
# RUSTC_WRAPPER of the build with scheduling points (property D02): only the library and the
# simulator, which its generic code is compiled into, get them. The second pass replaces atomic
# accesses by calls (of its other work everything is switched off).
here=$(cd "$(dirname "$0")" && pwd)
f="-C passes=function(tsan) -C passes=sancov-module --cfg steps"
for a in sanitizer-coverage-level=3 sanitizer-coverage-trace-pc sanitizer-coverage-trace-loads sanitizer-coverage-trace-stores \
  tsan-instrument-memory-accesses=0 tsan-instrument-func-entry-exit=0 tsan-instrument-memintrinsics=0; do
  f="$f -C llvm-args=-$a"
done
case " $* " in
*" --crate-name minifier "*) exec "$@" $f;;
*" --crate-name minsim "*) exec "$@" $f -C link-arg="$here/target/steps.o";;
*) exec "$@";;
esac
