#!/bin/bash
# check.sh <ID> <quick|thorough>: rebuild the harness against /repo's working tree, run one check.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
# mcrt loads runtime time tables, which the other harnesses leave out; mcffi compiles the C interface
case "$1" in C17) crate=mcrt ;; C31) crate=mcffi ;; *) crate=mc ;; esac
build() { (cd "$here/$crate" && cargo build --offline 2>&1); }
if ! build_log=$(build); then
    # left-over incremental state of another version of the harness can break the link: build it afresh
    (cd "$here/$crate" && CARGO_INCREMENTAL=0 cargo clean --offline -p "$crate" >/dev/null 2>&1)
    export CARGO_INCREMENTAL=0
    if ! build_log=$(build); then
        printf '%s\n' "$build_log" | tail -40 >&2
        echo "harness build failed" >&2
        exit 7
    fi
fi
export MC_VERIF="$here"
exec "$CARGO_TARGET_DIR/debug/$crate" "$1" "${2:-quick}"
