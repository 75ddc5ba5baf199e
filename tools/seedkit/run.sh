#!/bin/bash
# run.sh CRATE FILE [FEATURES]: appends demo.rs to FILE in a scratch copy of the repository in the current
# directory, lays out a workspace that builds without a network, and runs the test `planted_demo`.
set -u
kit=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
here=$(dirname "$kit")
repo=$PWD
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup CARGO_NET_OFFLINE=true
export PATH=/root/.cargo/bin:$PATH
unset CARGO_TARGET_DIR RUSTFLAGS RUSTC_WRAPPER
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/repo"
for f in Cargo.toml rust-toolchain.toml src crates README.md; do
    [ -e "$repo/$f" ] && cp -a "$repo/$f" "$tmp/repo/"
done
python3 "$kit/tools/mkws.py" "$tmp/ws" "$tmp/repo" "${OPT:-1}" || exit 2
cat "$here/demo.rs" >> "$tmp/repo/$2"
cd "$tmp/ws" || exit 2
cargo +1.90.0 test --offline -q -p "$1" --lib ${3:+--features "$3"} planted_demo > "$tmp/log" 2>&1
rc=$?
tail -40 "$tmp/log"
grep -q "test result: ok. 1 passed" "$tmp/log" || exit 1
exit $rc
