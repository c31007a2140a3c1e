#!/bin/bash
# plant.sh <id> [property...]: takes the edits in the scratch copy /tmp/w1 as
# seeded bug <id>, checks that it counts, and runs the checks against it (from a
# copy of the crate that depends on /tmp/w1, so that /repo stays as it is).
# /verif/seeded/<id>/{main.rs,meta.json} are written by hand before.
set -u
id=$1; shift
out=/verif/seeded/$id
. /opt/vp/env.sh
cd /tmp/w1 || exit 3
if git diff --quiet; then git apply "$out/patch.diff" || exit 3; fi
git diff >"$out/patch.diff"
cp /verif/tools/demo.sh "$out/demo.sh"; cp /verif/tools/demo.lock "$out/Cargo.lock"
cargo test --workspace "${FEATURES[@]}" --no-fail-fast --offline >/tmp/plant.log 2>&1
n=$(grep -cE "^test .* ok$" /tmp/plant.log); f=$(grep -cE "^test .*FAILED" /tmp/plant.log)
echo "$id: tests ok=$n failed=$f"
[ $n -eq 0 ] && grep -A8 "^error" /tmp/plant.log | head -20
bash "$out/demo.sh" >/tmp/plant.d1 2>&1; a=$?
(cd /repo && bash "$out/demo.sh" >/tmp/plant.d0 2>&1); b=$?
echo "$id: demo unpatched=$b patched=$a"; [ $b -ne 0 ] && grep -A6 "^error\|panicked" /tmp/plant.d0 | head -20; [ $a -eq 3 ] && tail -20 /tmp/plant.d1
tail -2 /tmp/plant.d1 | cut -c1-300
[ $# -eq 0 ] && set -- $(python3 -c "import json;print(json.load(open('$out/meta.json'))['property'])")
mkdir -p /tmp/mcw /tmp/mcr3
cp -r /verif/mc/src /verif/mc/Cargo.lock /tmp/mcw/
sed 's#/repo/ifc_rs#/tmp/w1/ifc_rs#' /verif/mc/Cargo.toml >/tmp/mcw/Cargo.toml
cp /verif/known-findings.txt /tmp/mcr3/
if ! (cd /tmp/mcw && cargo build --release --offline >/tmp/plant.b 2>&1); then grep -A8 "^error" /tmp/plant.b | head; fi
for p in "$@"; do
  rm -rf /tmp/mcr3/evidence
  (cd /tmp/mcw && MC_ROOT=/tmp/mcr3 RUST_BACKTRACE=0 timeout 900 target/release/mc $p ${TIER:-quick}) >/tmp/plant.c 2>&1; rc=$?
  echo "$id: $p rc=$rc $(grep -c VIOLATION /tmp/plant.c) violations"
  grep -A3 VIOLATION /tmp/plant.c | cut -c1-250 | head -${LINES_MAX:-4}
done
git checkout -q .
