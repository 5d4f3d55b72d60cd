#!/bin/bash
# run.sh build          build the harness against /repo's current working tree
# run.sh <ID> [quick|thorough]     build, then decide one property
# run.sh <ID> --replay <file>      build, then run one recorded case
# Exit: 0 held, 1 violation (with a VIOLATION line), anything else is an error of the run.
HERE="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$HERE/target" CARGO_TERM_COLOR=never
export VERIF_ROOT="$HERE"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$HERE/target" "$HERE/evidence"

# The hooks of /repo (cfg verif) are only used, and only built, for the properties that need them.
# The prototype under /repo/temp is not part of the workspace; it is only built for its own properties.
case "${1:-}" in
    C38) export CARGO_TARGET_DIR="$HERE/target/hooks" RUSTFLAGS="--cfg verif" ;;
    C48) export CARGO_TARGET_DIR="$HERE/target/plain" ;;
    C39 | C40 | C41) export CARGO_TARGET_DIR="$HERE/target/prototype" RUSTFLAGS="--cfg verif --cfg prototype" ;;
esac
mkdir -p "$CARGO_TARGET_DIR"
# By default the library is built without its std feature.
features=()
if [ "${1:-}" = C48 ]; then
    features=(--no-default-features)
fi

# The one script of /repo needs no build.
if [ "${1:-}" = C47 ]; then
    if [ "${2:-}" = "--replay" ]; then
        exec python3 "$HERE/pycheck/measurements.py" --replay "$3"
    fi
    export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}"
    exec timeout -k 5 "$([ "$VERIF_TIER" = thorough ] && echo 7200 || echo 800)" python3 "$HERE/pycheck/measurements.py"
fi

build() {
    local dir="$CARGO_TARGET_DIR"
    exec 9>"$dir/.lock"
    flock 9
    # Cargo decides by file times; go by contents instead, so that no stale build of /repo can be used.
    local sum
    sum="$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o \( -name '*.rs' -o -name 'Cargo.toml' -o -name 'Cargo.lock' \) -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
    if [ "$sum" != "$(cat "$dir/.repo-sum" 2>/dev/null)" ]; then
        (cd "$HERE/harness" && cargo clean --release --offline --locked -p linalg -p quaternion -p open_ahrs -p dsp -p utils -p harness) >/dev/null 2>&1
    fi
    if ! (cd "$HERE/harness" && cargo build --release --offline --locked "${features[@]}") >"$dir/build.log" 2>&1; then
        echo "ERROR the harness does not build against /repo:"
        tail -n 40 "$dir/build.log"
        exit 2
    fi
    printf '%s\n' "$sum" >"$dir/.repo-sum"
    exec 9>&-
}

build
case "${1:-}" in
    build) exit 0 ;;
    "") echo "usage: run.sh <property> [quick|thorough] | <property> --replay <file> | build"; exit 2 ;;
esac
id="$1"
if [ "${2:-}" = "--replay" ]; then
    exec "$CARGO_TARGET_DIR/release/harness" "$id" --replay "$3"
fi
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}"
exec timeout -k 5 "$([ "$VERIF_TIER" = thorough ] && echo 7200 || echo 800)" "$CARGO_TARGET_DIR/release/harness" "$id"
