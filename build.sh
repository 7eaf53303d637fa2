#!/bin/bash
# build.sh [lib] [cli] [steps]: builds the simulator with the library of /repo's working tree (lib), the real
# binary of /repo and the system call shim (cli), and a second simulator with scheduling points within the
# library's code (steps). Everything goes to /verif/target.
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS RUSTC_WRAPPER
log=$here/target/build.$$.log
mkdir -p "$here/target"
run() { "$@" >"$log" 2>&1 || { echo "HARNESS-ERROR: build failed: $*"; tail -n 40 "$log"; rm -f "$log"; exit 2; }; }
for what in "${@:-lib}"; do
  case "$what" in
  lib) run cargo build --offline --manifest-path "$here/sim/Cargo.toml" --target-dir "$here/target";;
  cli)
    run cargo build --offline --manifest-path /repo/Cargo.toml --bin minifier --target-dir "$here/target/cli"
    run gcc -O2 -w -fno-delete-null-pointer-checks -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -shared -fPIC -o "$here/target/shim.so.$$" "$here/shim/shim.c" -ldl
    mv -f "$here/target/shim.so.$$" "$here/target/shim.so";;
  steps)
    run gcc -O2 -c -o "$here/target/steps.o.$$" "$here/shim/steps.c"
    # cargo knows of neither of these two
    cat "$here/shim/steps.c" "$here/steps-rustc.sh" >"$here/target/steps.src.$$"
    cmp -s "$here/target/steps.src.$$" "$here/target/steps.src" || rm -rf "$here/target/sched"
    mv -f "$here/target/steps.o.$$" "$here/target/steps.o"
    mv -f "$here/target/steps.src.$$" "$here/target/steps.src"
    RUSTC_WRAPPER=$here/steps-rustc.sh run cargo build --offline --manifest-path "$here/sim/Cargo.toml" --target-dir "$here/target/sched";;
  esac
done
rm -f "$log"
