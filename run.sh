#!/bin/bash
# run.sh <property> <quick|thorough>: rebuilds the model checker against
# /repo's working tree and runs one check. `run.sh build` only builds.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
export MC_ROOT="$here"
cd "$here/mc" || exit 3
if ! cargo build --release --offline --locked >"$here/mc/build.log" 2>&1; then
  echo "the model checker does not build against /repo:" >&2
  tail -40 "$here/mc/build.log" >&2
  exit 3
fi
[ "${1:-}" = build ] && exit 0
"$here/mc/target/release/mc" "$1" "${2:-quick}" 2>"$here/mc/run.err"
rc=$?
cat "$here/mc/run.err" >&2
# the code under test ended the whole process: stack overflow, abort
if [ $rc -eq 134 ] || [ $rc -eq 139 ]; then
  mkdir -p "$here/evidence/replay"
  { echo "property: $1"; echo "what: the process was ended by the code under test (status $rc)"; tail -20 "$here/mc/run.err"; } >"$here/evidence/replay/$1-abort.txt"
  echo "VIOLATION property=$1 replay=$here/evidence/replay/$1-abort.txt"
  exit 1
fi
exit $rc
