#!/bin/bash
# run with the repository as working directory: builds main.rs against it
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ifc_rs = { path = "$repo/ifc_rs" }
bevy_math = { version = "0.16", default-features = false, features = ["std"] }
winnow = "0.6"
[profile.dev]
debug = false
T
cd "$d" || exit 3
if ! cargo build --offline --quiet >build.log 2>&1; then tail -30 build.log; exit 3; fi
mkdir scratch; cd scratch || exit 3
RUST_BACKTRACE=0 timeout 100 ../target/debug/demo
rc=$?
echo "demo: exit $rc"
exit $rc
