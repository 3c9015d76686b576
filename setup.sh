#!/bin/bash
# Nothing is kept between runs: each check builds what it needs. This only
# makes sure that the harness builds here, offline.
set -e
cd "$(dirname "$0")"
export PATH=$PATH:/root/.cargo/bin RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cd harness
flags='--cap-lints warn --cfg rescan_verif'
for area in settings runtime tree literal modes info graph connect builder reports depth sets \
    arithmetic string describe dump; do
    flags+=" --cfg rescan_verif=\"$area\""
done
for n in 06 07 08 09 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24; do
    flags+=" --cfg rescan_check=\"C$n\""
done
if RUSTFLAGS="$flags" \
    cargo build --offline --locked --quiet --profile checked --target-dir "$tmp" 2>/dev/null; then
    [ "$("$tmp/checked/rvharness" list | wc -l)" = 24 ]
else
    # Not fatal: each check is built with less access to internals.
    echo "the harness does not build with all access to internals" >&2
fi
