#!/bin/bash
# replay one case on the real code: replay.sh C01 '<case>' [nda] ; exit 1 when it still fails
# nda: in a build without debug assertions and overflow checks
[ "$3" = nda ] && export CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false CARGO_PROFILE_DEV_OVERFLOW_CHECKS=false
here=$(cd "$(dirname "$0")/.." && pwd)
repo=${UI_REPO:-/repo}
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cp -a "$here/refuter" "$here/data" "$d/"
sed -i "s#\"/repo/#\"$repo/#" "$d/refuter/Cargo.toml"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable}
CARGO_TARGET_DIR="$d/target" cargo build --offline -q --manifest-path "$d/refuter/Cargo.toml" || exit 2
case "$1" in C15|C16)
    py=/opt/vp/venv/bin/python; [ -x "$py" ] || py=python3
    mkdir -p "$d/src" "$d/mod/unicode_intervals"
    cp -a "$repo/crates" "$repo/Cargo.toml" "$repo/Cargo.lock" "$d/src/"
    (cd "$d/src" && PYO3_PYTHON=$py CARGO_TARGET_DIR="$d/pt" cargo build --offline -q -p unicode-intervals-py) || exit 2
    cp "$d/src/crates/unicode-intervals-py/python/unicode_intervals/__init__.py" "$d/mod/unicode_intervals/"
    cp "$d/pt/debug/libunicode_intervals.so" "$d/mod/unicode_intervals/unicode_intervals.abi3.so"
    "$py" -B "$here/tool/pydrive.py" --refuter "$d/target/debug/refuter" --dir "$d/mod" --prop "$1" --case "$2"
    exit $? ;;
esac
"$d/target/debug/refuter" --prop "$1" --case "$2"
