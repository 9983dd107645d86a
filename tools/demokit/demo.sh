#!/bin/bash
# Builds the library from the current folder (/repo) in a scratch folder, runs demo.cpp against it there, removes the folder.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'wait; rm -rf "$T"' EXIT
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
mkdir -p "$T/gen/opencompgraph" "$T/o" "$T/s"
B="/opt/vp/tools/bin/cxxbridge $R/src/cxxbridge.rs --cxx-impl-annotations OCG_API_EXPORT"
cargo build --manifest-path "$R/Cargo.toml" --lib --locked --offline --target-dir "$T/target" > "$T/cargo.log" 2>&1 &
$B --header --output "$T/gen/opencompgraph/_cxxbridge.h" && $B --output "$T/gen/_cxxbridge.cpp" || exit 2
F="-std=c++17 -O0 -fpermissive -w -I$T/gen -I$R/include -I$R/src"
for f in $(cd "$R/src" && find . -name '*.cpp' ! -name _cxxbridge.cpp ! -name ldpk_utils.cpp -printf '%P\n'); do
    echo "$R/src/$f $T/o/$(echo "$f" | tr / _).o"
done > "$T/list"
for f in "$T/gen/_cxxbridge.cpp" "$D/ldpk_stub.cpp" "$D/demo.cpp"; do echo "$f $T/o/$(basename "$f").o"; done >> "$T/list"
xargs -P 8 -L 1 sh -c "g++ $F -c \"\$0\" -o \"\$1\"" < "$T/list" > "$T/cxx.log" 2>&1 || { tail -5 "$T/cxx.log"; exit 2; }
wait
[ -f "$T/target/debug/libopencompgraph_rs.a" ] || { tail -20 "$T/cargo.log"; exit 2; }
g++ -o "$T/demo" "$T"/o/*.o "$T/target/debug/libopencompgraph_rs.a" -lOpenImageIO -lOpenImageIO_Util -lOpenColorIO -lpthread -ldl -lm > "$T/link.log" 2>&1 || { tail -5 "$T/link.log"; exit 2; }
cd "$T/s" && timeout 120 "$T/demo" 2> "$T/err"
r=$?
[ $r = 0 ] || { echo "demo: exit $r"; tail -n 5 "$T/err"; }
exit $r
