#!/bin/bash
# check.sh PROPERTY: decides one property on /repo's working tree. VERIF_SEED, VERIF_TIER.
here=$(cd "$(dirname "$0")" && pwd)
p=$1
exe=$here/target/debug/minsim
case "$p" in
C*) "$here/build.sh" lib cli || exit 2;;
D02) "$here/build.sh" steps || exit 2; exe=$here/target/sched/debug/minsim;;
*) "$here/build.sh" lib || exit 2;;
esac
export MINSIM_HOME=$here MINSIM_CLI=$here/target/cli/debug/minifier MINSIM_SHIM=$here/target/shim.so
exec "$exe" check "$p"
