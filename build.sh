#!/bin/bash
# Builds the simulator, and the code under test with it, offline.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export HOME=${HOME:-/root}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=$here/target
unset RUSTFLAGS RUSTC_WRAPPER
cd "$here/sim" || exit 3
log=$here/target/build.log
mkdir -p "$here/target"
# Judge freshness by content: copies of /repo may carry any modification times.
sum=$( (cat /repo/Cargo.toml; find /repo/src -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
if [ "$(cat "$here/target/repo.sum" 2>/dev/null)" != "$sum" ]; then
    cargo clean --release --offline -p psbt-v2 >/dev/null 2>&1
    rm -f "$here/target/repo.sum"
fi
if ! cargo build --release --offline --locked >"$log" 2>&1; then
    tail -40 "$log"
    echo "error: the simulator does not build against /repo"
    exit 3
fi
echo "$sum" >"$here/target/repo.sum"
