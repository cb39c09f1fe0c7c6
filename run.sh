#!/bin/bash
# usage: run.sh setup | run.sh check ID [quick|thorough] | run.sh replay FILE
# Builds the harness from /repo's working tree and runs one property.
set -u
VERIF_HOME=$(cd "$(dirname "$0")" && pwd)
export VERIF_HOME
export HOME=${HOME:-/root} PATH="/usr/local/bin:/usr/bin:/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable}
unset RUSTC_WRAPPER RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR="$VERIF_HOME/rust/target"
cd "$VERIF_HOME/rust" || exit 2
mkdir -p "$CARGO_TARGET_DIR" "$VERIF_HOME/evidence" "$VERIF_HOME/replays"

WRAPPED="gearley-vec2d gearley-forest gearley-grammar gearley-recognizer gearley-default-grammar
simple-bocage compact-bocage gearley-utils gearley gearley-example-grammars cartesian-product"

binary_of() {
    case $1 in
        C10|C25|C26) echo pv-vec2d ;;
        C09) echo pv-storage ;;
        C11|C27) echo pv-cartesian ;;
        C33) echo pv-traced ;;
        *) echo pv-engine ;;
    esac
}

# Sources are compared by content: a tree can change without its time stamps getting newer.
build() {
    exec 9>"$CARGO_TARGET_DIR/.build-lock"
    flock 9
    local sum old
    sum=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 \
        | sort -z | xargs -0 sha256sum | sha256sum)
    old=$(cat "$CARGO_TARGET_DIR/.repo-sum" 2>/dev/null || true)
    if [ "$sum" != "$old" ]; then
        local args=()
        for w in $WRAPPED; do args+=(-p "$w"); done
        cargo clean --release --offline "${args[@]}" >/dev/null 2>&1
        rm -rf "$CARGO_TARGET_DIR/.repo-sum" "$CARGO_TARGET_DIR/miri"
    fi
    local log="$CARGO_TARGET_DIR/build.$$.log"
    if ! cargo build --release --offline "$@" >"$log" 2>&1; then
        tail -60 "$log"
        rm -f "$log"
        echo "ERROR: the build failed"
        exit 2
    fi
    rm -f "$log"
    echo "$sum" >"$CARGO_TARGET_DIR/.repo-sum"
    flock -u 9
    exec 9>&-
}

case ${1:-} in
    setup)
        # One by one: they want different features of the crates they share.
        for bin in pv-engine pv-vec2d pv-storage pv-cartesian pv-traced; do build -p "$bin"; done
        ;;
    check)
        id=$2
        tier=${3:-${VERIF_TIER:-quick}}
        bin=$(binary_of "$id")
        build -p "$bin"
        exec "$CARGO_TARGET_DIR/release/$bin" "$id" --tier "$tier" --seed "${VERIF_SEED:-1}"
        ;;
    replay)
        file=$(realpath "$2")
        id=$(basename "$file" | cut -d- -f1)
        bin=$(binary_of "$id")
        build -p "$bin"
        exec "$CARGO_TARGET_DIR/release/$bin" "$id" --replay "$file"
        ;;
    *)
        sed -n 2,3p "$0"
        exit 2
        ;;
esac
