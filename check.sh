#!/bin/bash
# check.sh <property> [--replay FILE]: build the harness against /repo's working tree and decide one
# property. Exit 0: held; 1: VIOLATION; 2: error of the check.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable
export PATH="$PATH:/usr/local/bin:/root/.cargo/bin" CARGO_TARGET_DIR="$PWD/target"
tier=${VERIF_TIER:-quick}
[ -n "$1" ] || { echo "usage: check.sh <property> [--replay FILE]" >&2; exit 2; }
mkdir -p target || exit 2

# Build one profile. raki is rebuilt whenever the contents of its sources changed, whatever their
# timestamps say. cargo notes a new version of raki in the lock file; that is undone.
build() {
    local rc
    cp harness/Cargo.lock target/Cargo.lock.kept || return 1
    compile "$1" > "target/build.$1.log" 2>&1
    rc=$?
    cmp -s target/Cargo.lock.kept harness/Cargo.lock || cp target/Cargo.lock.kept harness/Cargo.lock
    [ $rc = 0 ] || cat "target/build.$1.log" >&2
    return $rc
}

compile() {
    local stamp="target/raki-sources.$1" sum
    sum=$(find /repo \( -name .git -o -name target \) -prune -o -type f -exec sha256sum {} + | sort -k2 | sha256sum) || return 1
    cd harness || return 1
    if [ "$(cat "../$stamp" 2>/dev/null)" != "$sum" ]; then
        : > "../$stamp"
        cargo clean --quiet --offline -p raki --profile "$1" 2>/dev/null
    fi
    cargo build --quiet --offline --profile "$1" && echo "$sum" > "../$stamp"
    local rc=$?
    cd .. || return 1
    return $rc
}

exec 9> target/build.lock
flock 9
build release || { echo "error: the harness does not build against /repo" >&2; exit 2; }
if [ "$tier" = thorough ] && [ "$#" = 1 ]; then
    build plain || { echo "error: the harness does not build against /repo" >&2; exit 2; }
fi
flock -u 9
exec 9>&-

run() { # seconds, binary, arguments
    timeout -k 5 "$1" "${@:2}"
    local rc=$?
    case $rc in 0 | 1) ;; *) echo "error: the check ended with status $rc" >&2; rc=2 ;; esac
    return $rc
}

if [ "$#" -gt 1 ]; then
    run 600 target/release/raki-pbt "$@"
    exit
fi
if [ "$tier" = thorough ]; then
    # First with raki compiled as users ship it, without debug assertions and overflow checks.
    export RAKI_PBT_PLAIN="$PWD/target/plain-$1.json"
    RAKI_PBT_EVIDENCE=$RAKI_PBT_PLAIN RAKI_PBT_BUDGET=240 run 340 target/plain/raki-pbt "$1" || exit
    RAKI_PBT_BUDGET=370 run 480 target/release/raki-pbt "$1"
    exit
fi
run 840 target/release/raki-pbt "$1"
