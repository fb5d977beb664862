#!/bin/bash
# check.sh build                  build both profiles of the harness from /repo's working tree
# check.sh ID quick|thorough      run one property's check
# check.sh replay FILE            decide a recorded case again
set -u
export VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export CARGO_TARGET_DIR="$VERIF_DIR/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_BUILD_TARGET

build() {
    # Cargo decides by modification times; a tree swapped in with older ones must be seen too.
    local d
    for d in checked release plain; do
        d="$CARGO_TARGET_DIR/$d"
        [ -d "$d/.fingerprint" ] && find "$d/.fingerprint" -maxdepth 1 -name 'rangetools-*' -exec rm -rf {} +
    done
    local log ok=0 p pids=""; log="$(mktemp -d)"
    for p in "$@"; do
        (cd "$VERIF_DIR/harness" && cargo build --offline --quiet --profile "$p" --bin rtcheck) >"$log/$p" 2>&1 &
        pids="$pids $!"
    done
    for p in $pids; do wait "$p" || ok=1; done
    [ $ok = 0 ] || { cat "$log"/* >&2; echo "check error: the harness does not build" >&2; }
    rm -rf "$log"
    return $ok
}

# The coverage-guided search of the thorough tier; without it the rest still decides.
build_fuzz() {
    local d="$VERIF_DIR/target/fuzz" t=x86_64-unknown-linux-gnu log; log="$(mktemp)"
    [ -d "$d" ] && find "$d" -maxdepth 4 -path '*.fingerprint/rangetools-*' -prune -exec rm -rf {} +
    if (cd "$VERIF_DIR/fuzz" && CARGO_TARGET_DIR="$d" RUSTFLAGS="--cfg fuzzing -Cpasses=sancov-module \
        -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
        -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares \
        -Ccodegen-units=16" cargo build --offline --quiet --release --target $t) >"$log" 2>&1; then
        export RT_FUZZ="$d/$t/release/rtfuzz"
    else
        tail -5 "$log" >&2; echo "note: the instrumented build failed; thorough runs without it" >&2
    fi
    rm -f "$log"
}

case "${1:-}" in
build) build checked release plain || exit 2 ;;
replay)
    build checked release plain || exit 2
    exec "$CARGO_TARGET_DIR/checked/rtcheck" replay "$2" ;;
C16)
    build checked release plain || exit 2
    exec "$CARGO_TARGET_DIR/checked/rtcheck" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
C*)
    build checked release || exit 2
    [ "${2:-${VERIF_TIER:-quick}}" = thorough ] && build_fuzz
    exec "$CARGO_TARGET_DIR/checked/rtcheck" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
*) sed -n 2,4p "$0" >&2; exit 2 ;;
esac
