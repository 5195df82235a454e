#!/bin/bash
# run.sh <ID> quick|thorough          decide property <ID> on /repo's working tree
# run.sh <ID> --replay FILE           re-run one recorded failing case
# run.sh build                        build every check
set -u
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export PV_ROOT="$ROOT" PV_REPO="${PV_REPO:-/repo}" CARGO_TARGET_DIR="$ROOT/target" CARGO_NET_OFFLINE=true
export RUST_BACKTRACE=0
mkdir -p "$CARGO_TARGET_DIR" replay evidence

tree_hash() {
    (cd "$PV_REPO" && find . -path ./target -prune -o -path ./.git -prune -o \( -name '*.rs' -o -name 'Cargo.toml' \) -print0 |
        sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1
}

# cargo looks at modification times; contents decide here
build() {
    local stamp="$CARGO_TARGET_DIR/.repo-hash" h
    h=$(tree_hash)
    if [ "$(cat "$stamp" 2>/dev/null)" != "$h" ]; then
        rm -f "$stamp"
        find "$CARGO_TARGET_DIR/release/.fingerprint" -maxdepth 1 -name 'prima_undine*' -exec rm -rf {} + 2>/dev/null
    fi
    (cd "$ROOT/harness" && cargo build --release --offline --quiet "$@") >"$CARGO_TARGET_DIR/build.log" 2>&1 || {
        grep -E '^error' -A12 "$CARGO_TARGET_DIR/build.log" | head -60
        echo "ERROR: the checks do not build against $PV_REPO"
        return 1
    }
    echo "$h" >"$stamp"
}

if [ "${1:-}" = build ]; then
    # each check builds what it needs again and judges a failure to do so
    build --keep-going || build --lib || exit 2
    exit 0
fi

ID=$1
MODE=${2:-quick}
bin=$(echo "$ID" | tr 'A-Z' 'a-z')
(
    flock 9
    build --bin "$bin" && exit 0
    # the library builds and only the derived models do not: the derive broke
    if [ "$ID" = C24 ] && build --lib >/dev/null; then
        build --bin c24 >/dev/null
        cp "$CARGO_TARGET_DIR/build.log" replay/C24-build.log
        exit 1
    fi
    exit 2
) 9>"$CARGO_TARGET_DIR/.run-lock"
case $? in
    0) ;;
    1)
        echo "C24: structs that are in the family of the derive do not compile"
        echo "VIOLATION property=C24 replay=$ROOT/replay/C24-build.log"
        exit 1
        ;;
    *) exit 2 ;;
esac

case "$MODE" in
    --replay) exec "$CARGO_TARGET_DIR/release/$bin" --replay "$3" ;;
    thorough) VERIF_TIER=thorough exec "$CARGO_TARGET_DIR/release/$bin" ;;
    *) VERIF_TIER=quick exec "$CARGO_TARGET_DIR/release/$bin" ;;
esac
