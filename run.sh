#!/bin/bash
# usage: run.sh <property id>        run the check (VERIF_SEED, VERIF_TIER)
#        run.sh setup                build the harness
#        run.sh replay <file>        re-run a replay file
cd /verif || exit 2
export VERIF_TARGET=${VERIF_TARGET:-/verif/target}
export CARGO_NET_OFFLINE=true
export RUST_BACKTRACE=${RUST_BACKTRACE:-0}
unset RUSTFLAGS CARGO_TARGET_DIR
mkdir -p "$VERIF_TARGET" || exit 2
# cargo decides by mtime: rebuild the crate under test whenever its *contents* differ
stamp=$(cd /repo && find Cargo.toml Cargo.lock src -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$VERIF_TARGET/repo.stamp" 2>/dev/null)" != "$stamp" ]; then
    (cd harness && cargo clean --offline -p fastxdr --target-dir "$VERIF_TARGET" >/dev/null 2>&1)
fi
build() { # the harness; C12 alone needs the feature `ast` (it reads the public fields of the AST types)
    (cd harness && cargo build --offline --locked "$@" --target-dir "$VERIF_TARGET" --message-format=json-render-diagnostics \
        >"$VERIF_TARGET/build.json.tmp" 2>"$VERIF_TARGET/build.log")
}
if ! build && { [ "$1" = C12 ] || ! build --no-default-features; }; then
    tail -40 "$VERIF_TARGET/build.log" >&2
    echo "error: the harness does not build against /repo" >&2
    exit 2
fi
mv "$VERIF_TARGET/build.json.tmp" "$VERIF_TARGET/build.json"
echo "$stamp" >"$VERIF_TARGET/repo.stamp"
build_cli() {
    if [ "$(cat "$VERIF_TARGET/cli.stamp" 2>/dev/null)" != "$stamp" ]; then
        (cd /repo && cargo clean --offline --locked -p fastxdr --target-dir "$VERIF_TARGET/cli" >/dev/null 2>&1)
    fi
    if ! (cd /repo && CARGO_PROFILE_DEV_OPT_LEVEL=1 cargo build --offline --locked --bin fastxdr --target-dir "$VERIF_TARGET/cli" >"$VERIF_TARGET/cli.log" 2>&1); then
        tail -40 "$VERIF_TARGET/cli.log" >&2
        echo "error: the fastxdr binary does not build" >&2
        exit 2
    fi
    echo "$stamp" >"$VERIF_TARGET/cli.stamp"
}
case "$1" in
setup | C15) build_cli ;;
replay) grep -q '"property": "C15"' "$2" && build_cli ;;
esac
case "$1" in
setup) exit 0 ;;
replay) exec "$VERIF_TARGET/debug/vharness" replay "$2" ;;
*) "$VERIF_TARGET/debug/vharness" check "$1" ;;
esac
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || rc=2
exit $rc
