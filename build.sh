#!/bin/bash
# Builds the driver if needed, and the resolved program of /repo's working tree.
# usage: build.sh OUTDIR        (writes OUTDIR/mono_alloc.json, mono_noalloc.json, facts_*.json)
set -u
V=$(cd "$(dirname "$0")" && pwd)
OUT=$1
SYS=$(rustc +nightly --print sysroot) || exit 3
export LD_LIBRARY_PATH=$SYS/lib
mkdir -p "$V/build" "$OUT"
exec 9>"$V/build/.lock"
flock 9
stamp=$(cat "$V"/driver/*.rs | sha256sum | cut -c1-16)
DRV=$V/build/driver-$stamp
if [ ! -x "$DRV" ]; then
  rustc +nightly --edition 2021 -O "$V/driver/main.rs" -o "$DRV.tmp" >"$V/build/driver.log" 2>&1 && mv "$DRV.tmp" "$DRV" || { cat "$V/build/driver.log" >&2; exit 3; }
fi
flock -u 9
FL="--edition 2021 -Zalways-encode-mir -Zmir-opt-level=0 -Zinline-mir=no -Coverflow-checks=on -Cdebug-assertions=on -Cpanic=unwind --cap-lints allow"
one() { # suffix, cfg...
  local d=$OUT/$1; shift
  mkdir -p "$d"
  ( cd /repo && CARGO_PKG_NAME=nominals VP_FACTS_OUT=$OUT/facts_$(basename $d).json "$DRV" --sysroot "$SYS" --crate-type rlib --crate-name nominals src/lib.rs $FL "$@" --out-dir "$d" ) >"$d/lib.log" 2>&1 || { echo "BUILD-FAILED nominals" >&2; cat "$d/lib.log" >&2; return 4; }
  VP_MONO_OUT=$OUT/mono_$(basename $d).json "$DRV" --sysroot "$SYS" --crate-type rlib --crate-name harness "$V/harness/harness.rs" $FL "$@" --extern nominals="$d/libnominals.rlib" --emit metadata --out-dir "$d" >"$d/h.log" 2>&1 || { echo "BUILD-FAILED harness" >&2; cat "$d/h.log" >&2; return 4; }
}
one alloc --cfg 'feature="alloc"' & p1=$!
one noalloc & p2=$!
wait $p1; r1=$?
wait $p2; r2=$?
[ $r1 = 0 ] && [ $r2 = 0 ] || exit 4
