#!/bin/bash
# run.sh build | run <ID> | replay <FILE>
# Builds the harness against /repo's current working tree (offline) and runs one property's search.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR CARGO_INCREMENTAL
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$HERE/harness" || exit 3
build() { # target-dir rustflags cargo-args...
    local dir=$1 flags=$2; shift 2
    CARGO_TARGET_DIR=$dir RUSTFLAGS=$flags cargo build --release --offline --locked -q "$@"
}
BIN=
if build "$HERE/harness/target" "--cfg verif_hooks -Awarnings" --features hooks; then
    BIN=$HERE/harness/target/release/harness
else
    echo "note: the build with hooks failed; building without them" >&2
    if build "$HERE/harness/target-nohooks" "-Awarnings"; then
        BIN=$HERE/harness/target-nohooks/release/harness
    else
        echo "harness error: cannot build against /repo" >&2
        exit 3
    fi
fi
cd "$HERE" || exit 3
case "$1" in
    build) exit 0 ;;
    run|replay) HARNESS_OUT=$HERE exec "$BIN" "$@" ;;
    *) echo "usage: run.sh build | run <ID> | replay <FILE>" >&2; exit 2 ;;
esac
