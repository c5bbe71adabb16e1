#!/bin/bash
# Builds the tablet cache sources of the current directory's tree with
# main.rs in a scratch directory and runs it: 0 if it observes what the
# property says, nonzero otherwise.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/Cargo.toml" "$here/Cargo.lock" "$here/build.rs" "$tmp/"
cp "$here/main.rs" "$here/scaffold.rs" "$tmp/src/"
ln -s "$repo/apps/tablet_cache/service/src/transaction.rs" "$tmp/src/transaction.rs"
ln -s "$repo/apps/tablet_cache/service/src/transaction" "$tmp/src/transaction"
ln -s "$repo/apps/tablet_cache/service/src/store.rs" "$tmp/src/store.rs"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true PROTOC=/usr/bin/protoc
export PATH=/root/.cargo/bin:$PATH CARGO_TARGET_DIR="$tmp/target" RUSTC_WRAPPER=
cd "$tmp"
cargo build --offline --locked -q 2>build.log || { tail -40 build.log; exit 3; }
timeout 60 "$tmp/target/debug/demo"
