#!/bin/bash
# Builds the simulator against /repo's current working tree.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
cd "$here/sim" || exit 2
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS RUSTDOCFLAGS CARGO_BUILD_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR="$here/sim/target"
mkdir -p target
exec 9>target/.build-lock
flock 9
# cargo goes by mtime; a source put back with an old one must be seen too
want=$( (cd /repo && find . -name target -prune -o \( -name '*.rs' -o -name Cargo.toml \) -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
if [ "$want" != "$(cat target/.srchash 2>/dev/null)" ]; then
    rm -rf target/release/.fingerprint/parsel* target/release/.fingerprint/psim*
fi
# where derived code does not compile for unusual names, or for generics and attributes, the simulator does without those shapes
for level in "" 1 2; do
    if [ -n "$level" ]; then export PSIM_ZOO=$level; else unset PSIM_ZOO; fi
    cargo build --release --offline --locked >target/build$level.log 2>&1 && break
    if [ "$level" = 2 ]; then tail -40 target/build.log >&2; echo "the simulator does not build against /repo" >&2; exit 2; fi
done
if [ -n "$level" ]; then grep -m3 '^error' target/build.log >&2; echo "built without the shapes that do not compile (level $level); see sim/target/build.log" >&2; fi
gcc -O1 -shared -fPIC -o target/release/simshim.so simshim.c -ldl >>target/build.log 2>&1 || { tail -5 target/build.log >&2; exit 2; }
echo "$(rustc --print sysroot)/bin/rustc" >target/release/rustc.path
echo "$want" >target/.srchash
