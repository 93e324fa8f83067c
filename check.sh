#!/bin/bash
# check.sh build            build the checks against /repo's current tree
# check.sh ID               run the check of property ID
# check.sh replay FILE      run the one case recorded in FILE again
# VERIF_TIER=thorough, VERIF_SEED and VERIF_CASES adjust the search.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_DIR=${VERIF_DIR:-$here}
export CARGO_TARGET_DIR=${VERIF_TARGET:-$here/target}
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR" "$VERIF_DIR/evidence" "$VERIF_DIR/replays"

build() {
    # Cargo decides by modification times; decide by content instead, so that
    # no way of changing /repo goes unnoticed.
    local sum old
    sum=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
    old=$(cat "$CARGO_TARGET_DIR/repo.sum" 2>/dev/null || true)
    if [ "$sum" != "$old" ]; then
        rm -f "$CARGO_TARGET_DIR/repo.sum"
        (cd "$here/harness" && cargo clean --offline -q -p pdf-writer) >/dev/null 2>&1
    fi
    (cd "$here/harness" && cargo build --offline -q --bins) || return 1
    echo "$sum" >"$CARGO_TARGET_DIR/repo.sum"
}

exec 9>"$CARGO_TARGET_DIR/build.lock"
flock 9
build 1>&2 || { echo "build failed" >&2; exit 2; }
flock -u 9
exec 9>&-
case "${1:-}" in
build) exit 0 ;;
esac
ulimit -v 25000000
ulimit -c 0
exec "$CARGO_TARGET_DIR/debug/core" "$@"
