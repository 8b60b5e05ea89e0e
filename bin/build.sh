#!/usr/bin/env bash
# Builds the simulator twice from /repo's working tree: with the library's debug assertions and
# statistics, and as it's released.
set -u
cd "$(dirname "$0")/../sim" || exit 2
log="$(mktemp)"
trap 'rm -f "$log"' EXIT
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
if ! { cargo build --offline --locked --quiet --profile simdbg --features stats \
    && cargo build --offline --locked --quiet --profile simrel; } >"$log" 2>&1; then
    cat "$log" >&2
    exit 2
fi
