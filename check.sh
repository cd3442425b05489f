#!/bin/bash
# check.sh setup | <property> quick|thorough | replay <file>
# Builds the harness against /repo's working tree, then runs one property.
# Exit: 0 held, 1 violation (VIOLATION line), 3 could not build, others: error.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT="$here"
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_HOME="${CARGO_HOME:-$( [ -d /root/.cargo ] && echo /root/.cargo )}"
[ -n "$CARGO_HOME" ] || unset CARGO_HOME
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
PATH="$PATH:/root/.cargo/bin:/usr/local/cargo/bin"

build() {
    mkdir -p "$CARGO_TARGET_DIR" || return 3
    exec 9>"$CARGO_TARGET_DIR/.check-lock"
    flock 9
    # file times of a copied tree say little: go by content
    local now
    now=$( { cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; cargo --version; } 2>/dev/null | sha256sum)
    if [ "$now" != "$(cat "$CARGO_TARGET_DIR/.repo-stamp" 2>/dev/null)" ]; then
        rm -f "$CARGO_TARGET_DIR/.repo-stamp"
        [ -d "$CARGO_TARGET_DIR/release" ] &&
            (cd "$here/harness" && cargo clean --offline --release -p bsplines >/dev/null 2>&1)
    fi
    if ! (cd "$here/harness" && cargo build --release --offline --locked) >"$CARGO_TARGET_DIR/build.log" 2>&1; then
        grep -E -A8 '^error' "$CARGO_TARGET_DIR/build.log" | head -60 >&2
        echo "check.sh: the harness does not build against /repo" >&2
        return 3
    fi
    echo "$now" >"$CARGO_TARGET_DIR/.repo-stamp"
    flock -u 9
}

case "$1" in
    setup) build ;;
    replay) build || exit $?; exec "$CARGO_TARGET_DIR/release/bsv" replay "$2" ;;
    C*) build || exit $?; exec "$CARGO_TARGET_DIR/release/bsv" "$1" "${2:-${VERIF_TIER:-quick}}" ;;
    *) echo "usage: $0 setup | <property> quick|thorough | replay <file>" >&2; exit 2 ;;
esac
