#!/bin/bash
# check.sh ID [quick|thorough]   decide one property against /repo's working tree
# check.sh build                 build the explorer only
# check.sh replay FILE           run the recorded case of a violation again
# Exit 0: held on everything explored. 1: violation. 2: the check itself failed.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${MC_REPO:-/repo}
export MC_ROOT=$here
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=$here/mc/target
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET

build() {
    mkdir -p "$CARGO_TARGET_DIR"
    exec 9>"$CARGO_TARGET_DIR/.mc-lock"
    flock 9
    # Time stamps say too little about a restored or copied tree: when the
    # content of the library differs from what was built last, cargo is made
    # to forget its build.
    local sum stamp=$CARGO_TARGET_DIR/.mc-built-from
    sum=$(cd "$repo" && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 |
        sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$sum" != "$(cat "$stamp" 2>/dev/null)" ]; then
        rm -f "$stamp"
        if [ -d "$CARGO_TARGET_DIR/release/.fingerprint" ]; then
            find "$CARGO_TARGET_DIR/release/.fingerprint" -maxdepth 1 -name 'gamma-*' -exec rm -rf {} +
        fi
    fi
    if ! (cd "$here/mc" && cargo build --release --offline --quiet) >"$CARGO_TARGET_DIR/.mc-log" 2>&1; then
        cat "$CARGO_TARGET_DIR/.mc-log"
        echo "check.sh: the explorer does not build against $repo"
        exit 2
    fi
    echo "$sum" >"$stamp"
    exec 9>&-
}

case "${1:-}" in
    build) build; exit 0 ;;
    replay)
        build
        [ -r "${2:-}" ] || { echo "check.sh: no such replay file"; exit 2; }
        key() { sed -n "s/^$1=//p" "$2" | head -1; }
        exec "$here/mc/target/release/mc" one "$(key property "$2")" "$(key tier "$2")" \
            "$(key stage "$2")" "$(key index "$2")" ;;
    C[0-9][0-9])
        build
        tier=${2:-${VERIF_TIER:-quick}}
        exec "$here/mc/target/release/mc" run "$1" "$tier" ;;
    *) sed -n '2,5p' "$0"; exit 2 ;;
esac
