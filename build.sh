#!/bin/bash
# build.sh: builds the simulator from /repo's current working tree into /verif/.build (ignored by git).
# Nothing is written in /repo or /opt/vp.  Exit 0: built; anything else: the tree does not build.
set -e
V=$(cd "$(dirname "$0")" && pwd)
B=${VERIF_BUILD_DIR:-$V/.build}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_INCREMENTAL=1
mkdir -p "$B"
exec 9> "$B/lock"
flock 9
unset MAKEFLAGS MFLAGS
cd "$B"
REPO=${VERIF_REPO:-/repo}
make -s -f "$V/sim/Makefile" -j8 V="$V" B="$B" REPO="$REPO" > "$B/build.log" 2>&1 || { grep -n -A3 "error" "$B/build.log" | head -n 60 >&2; exit 3; }
