#!/bin/bash
# Builds the sources of /repo's tree together with a model of what they should
# do in a scratch directory and runs random histories against both: 0 if they
# agree on all of them, 1 with the first history where they do not.
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/." "$tmp/"
@LINKS@
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true PROTOC=/usr/bin/protoc
export PATH=/root/.cargo/bin:$PATH CARGO_TARGET_DIR="$tmp/target" RUSTC_WRAPPER=
cd "$tmp"
cargo build --offline --locked -q --features @FEATURE@ 2>build.log || { grep -A6 ^error build.log | head -40; exit 3; }
timeout 120 "$tmp/target/debug/vx_@AREA@" @FEATURE@ 12345 @SECS@ > out.log
grep VXRESULT out.log | cut -c1-3000
grep -q '"violations":\[\]' out.log
