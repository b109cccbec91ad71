#!/bin/bash
# ./check.sh <property id> [--replay FILE]     build against /repo's working tree and run one check
# ./check.sh --build                           build only
# Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Anything else: an error of the check.
set -u
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_ROOT="$ROOT"
export HOME="${HOME:-/root}"
export PATH="$PATH:/usr/local/bin:$HOME/.cargo/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR RAYON_NUM_THREADS

H="$ROOT/harness"
T="$H/target"
mkdir -p "$T" || exit 3

# cargo looks at modification times; the stamp makes the rebuild depend on the contents of /repo.
NOW="$(cd /repo && { find src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum)" || exit 3
if [ -e "$T/repo.stamp" ] && [ "$(cat "$T/repo.stamp")" != "$NOW" ]; then
    (cd "$H" && cargo clean --offline --release -p reCTBN >/dev/null 2>&1)
fi
rm -f "$T/repo.stamp"
LOG="$(mktemp)" || exit 3
if ! (cd "$H" && cargo build --release --offline --locked) >"$LOG" 2>&1; then
    tail -n 60 "$LOG" >&2
    rm -f "$LOG"
    echo "CHECK ERROR: the harness does not build against /repo" >&2
    exit 3
fi
rm -f "$LOG"
printf '%s\n' "$NOW" >"$T/repo.stamp"
[ "${1:-}" = "--build" ] && exit 0
exec "$T/release/rectbn-pbt" "$@"
