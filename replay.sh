#!/bin/bash
# replay.sh FILE: judges one saved case against /repo's working tree. Exit as check.sh.
set -u
f=$(realpath "${1:?usage: replay.sh FILE}")
here=$(cd "$(dirname "$0")" && pwd)
export GQLV_HOME=$here CARGO_TARGET_DIR=$here/target CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUST_BACKTRACE
. "$here/build.sh"
if grep -q '"property": "C14"' "$f"; then gqlv_build dev || exit 2; else gqlv_build release || exit 2; fi
exec "$gqlv_bin" replay "$f"
