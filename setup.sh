#!/bin/bash
# Builds the harness once; every check builds again what it needs.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR=$here/target CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUST_BACKTRACE
. "$here/build.sh"
gqlv_build release
