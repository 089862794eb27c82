#!/bin/bash
# check.sh build             build the harness against /repo's working tree
# check.sh C01 [thorough]    decide one property
# check.sh replay C01 FILE   run the case in a replay file again
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PATH="${CARGO_HOME:-$HOME/.cargo}/bin:/root/.cargo/bin:/usr/local/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$here/target" RUSTC_WRAPPER=
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG RUSTFLAGS

build() {
    mkdir -p "$CARGO_TARGET_DIR" || return 1
    # Cargo goes by the times of files: a tree which was put in place of another with older times
    # must be seen as well.
    local now
    now=$(cd /repo && find core derive json Cargo.toml -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$now" != "$(cat "$CARGO_TARGET_DIR/repo.sum" 2>/dev/null)" ]; then
        (cd "$here/harness" && cargo clean --offline -q -p serdere -p serdere-derive -p serdere-json) >/dev/null 2>&1
        rm -f "$CARGO_TARGET_DIR/repo.sum"
    fi
    export VERIF_BUILD_LOG="$CARGO_TARGET_DIR/build.log"
    if ! (cd "$here/harness" && cargo build --offline -q) >"$VERIF_BUILD_LOG" 2>&1; then
        # Only the types which use the derive macros may be what does not compile
        if (cd "$here/harness" && cargo build --offline -q --no-default-features) >"$VERIF_BUILD_LOG.2" 2>&1; then
            echo "the derived types of the harness do not compile: going on without them"
            return 0
        fi
        grep -A12 '^error' "$CARGO_TARGET_DIR/build.log" | head -60
        echo "ERROR the harness does not build against /repo"
        return 1
    fi
    echo "$now" >"$CARGO_TARGET_DIR/repo.sum"
}

build || exit 2
bin="$CARGO_TARGET_DIR/debug/verif"
case "${1:-}" in
    build) exit 0 ;;
    replay) exec "$bin" replay "$2" "$3" ;;
    C*)
        export VERIF_EVIDENCE="${VERIF_EVIDENCE:-$here/evidence}"
        if [ "${2:-}" = thorough ]; then export VERIF_TIER=thorough; fi
        exec "$bin" run "$1"
        ;;
    *) echo "usage: check.sh build | C01 [thorough] | replay C01 FILE"; exit 2 ;;
esac
