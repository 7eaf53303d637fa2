#!/bin/bash
# minsim.sh replay FILE | show PROP RUN | selftest PROP N: the simulator's other commands
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" lib cli steps || exit 2
export MINSIM_HOME=$here MINSIM_CLI=$here/target/cli/debug/minifier MINSIM_SHIM=$here/target/shim.so
exe=$here/target/debug/minsim
case "$2" in D02) exe=$here/target/sched/debug/minsim;; esac
if [ "$1" = replay ] && grep -q '"property": *"D02"' "$2"; then exe=$here/target/sched/debug/minsim; fi
exec "$exe" "$@"
