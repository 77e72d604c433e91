# gqlv_build release|dev: builds /verif/harness; sets gqlv_bin. Sourced by check.sh, setup.sh.
gqlv_build() {
    local profile=$1 dir=$1 flag=--release log
    [ "$profile" = dev ] && { dir=debug; flag=; }
    # cargo goes by modification times, which copying and checking out may set back:
    # always compile /repo's crate anew
    rm -rf "$CARGO_TARGET_DIR/$dir"/.fingerprint/graphql-parser-*
    log=$CARGO_TARGET_DIR/build-$profile.log
    mkdir -p "$CARGO_TARGET_DIR"
    if ! cargo build --manifest-path "$here/harness/Cargo.toml" --offline --locked $flag >"$log" 2>&1; then
        cat "$log" >&2
        echo "ERROR: the harness does not build" >&2
        return 1
    fi
    gqlv_bin=$CARGO_TARGET_DIR/$dir/gqlv
}
