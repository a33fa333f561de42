#!/bin/bash
# run.sh PROPERTY quick|thorough: build from /repo's working tree, then monitor.
# Exit 0: held on everything explored; 1: VIOLATION; 2: nothing could be decided.
cd "$(dirname "$0")" || exit 2
export AFMT_VERIF="$PWD" RUST_BACKTRACE=0 RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
T="${AFMT_TARGET:-$PWD/target}"
export AFMT_TARGET="$T"
mkdir -p "$T" evidence
TRIPLE=x86_64-unknown-linux-gnu
build() { # log, command...
    local log="$T/$1.log"; shift
    timeout 500 "$@" >"$log" 2>&1 || { echo "INCONCLUSIVE: build failed: $*"; tail -40 "$log"; return 1; }
}
base=(--manifest-path harness/Cargo.toml --offline --release)
asan() {
    RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=address" CC=clang \
    CFLAGS="-fsanitize=address,undefined -fsanitize-trap=undefined -fno-omit-frame-pointer" \
    build asan cargo build "${base[@]}" --bin monitor --target $TRIPLE --target-dir "$T/asan"
}
tsan() {
    RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=thread" CC=clang CFLAGS="-fsanitize=thread" \
    build tsan cargo build -Zbuild-std "${base[@]}" --bin monitor --target $TRIPLE --target-dir "$T/tsan"
}
if [ "$1" = C18 ]; then
    asan & a=$!
    tsan & t=$!
fi
build release cargo build "${base[@]}" --target-dir "$T"
ok=$?
if [ "$1" = C18 ]; then
    wait $a || ok=1
    wait $t || ok=1
fi
[ $ok = 0 ] || exit 2
[ "$1" = setup ] && exit 0
exec "$T/release/monitor" check "$1" "$2"
