#!/bin/bash
# run.sh PROPERTY quick|thorough      build the harness from /repo's working tree and run one check
# run.sh --setup                      build everything once
set -u
cd "$(dirname "$0")" || exit 2
SELF=$PWD
source /opt/vp/env.sh
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
export CARGO_TERM_COLOR=never
export PATH="$PATH:/root/.cargo/bin"
mkdir -p "$SELF/target" "$SELF/evidence"
exec 9>"$SELF/target/.mc.lock"; flock 9
# Cargo decides what to rebuild by mtime; decide by content instead, so that a tree whose files
# changed without newer mtimes is still rebuilt.
stamp="$SELF/target/.repo-manifest"
new="$SELF/target/.repo-manifest.new"
( cd /repo && find Cargo.toml Cargo.lock src crates -type f \( -name '*.rs' -o -name 'Cargo.*' -o -name '*.py' \) -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum ) >"$new" 2>/dev/null
if ! cmp -s "$stamp" "$new"; then
    if [ -f "$stamp" ]; then
        for f in $(diff "$stamp" "$new" | sed -n 's/^[<>] [0-9a-f]*  //p' | sort -u); do
            case "$f" in crates/*/*) k=${f#crates/}; echo "${k%%/*}";; *) echo rez-next;; esac
        done | sort -u
    else
        echo rez-next
    fi | while read -r k; do
        find "$SELF/target" -maxdepth 3 -type d -path "*/.fingerprint/$k-*" -prune -exec rm -rf {} +
    done
    rm -f "$stamp"
fi
build() { ( cd "$SELF/harness" && cargo build --offline --locked -q "$@" ) 2>"$SELF/target/build.log" || { tail -40 "$SELF/target/build.log" >&2; echo "harness build failed" >&2; exit 2; }; }
case "${1:-}" in
    --setup) build; mv "$new" "$stamp"; exit 0;;
esac
prop=$1; tier=${2:-quick}
case "$prop" in
    B01|G01|G02|Q01|R03) pkg=mcb;;
    *) pkg=mc;;
esac
build
mv "$new" "$stamp"
flock -u 9; exec 9>&-
cd "$SELF" || exit 2
exec "$SELF/target/debug/$pkg" "$prop" "$tier"
