#!/bin/bash
# check.sh <property> [quick|thorough]: builds the harness against /repo's working tree and
# runs one property. Exit 0: held; 1 with a VIOLATION line: broken; anything else: no answer.
set -u
id=${1:?usage: check.sh <property> [quick|thorough]}
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
export GQLV_HOME=$here VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=$tier
export CARGO_TARGET_DIR=$here/target CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUST_BACKTRACE

. "$here/build.sh"
case $id in
C14) gqlv_build dev || exit 2 ;;
*) gqlv_build release || exit 2 ;;
esac
# no case needs more: what does ends here and not with the sandbox
ulimit -v 24000000
"$gqlv_bin" run "$id" "$tier"
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || echo "ERROR: $id gave no answer (exit $rc)" >&2
exit $rc
