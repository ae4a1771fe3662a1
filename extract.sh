#!/bin/bash
# extract.sh OUT.json [fresh|release]: compile /repo's current working tree with the fact driver and write its MIR facts.
# 'release' compiles without debug assertions and overflow checks, as a release build does, and is not cached.
# The result is keyed by the content of /repo's sources, so an unchanged tree is extracted once.
set -eu
V=$(cd "$(dirname "$0")" && pwd)
W=${KY_WORK:-$V/work}
R=${KY_REPO:-/repo}
mkdir -p "$W"
exec 9>"$W/lock"; flock 9
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true
SYS=$(rustc --print sysroot)
DRV="$V/driver/target/release/kyfacts"
if [ ! -x "$DRV" ] || [ -n "$(find "$V/driver/src" "$V/driver/Cargo.toml" -newer "$DRV" 2>/dev/null)" ]; then
  (cd "$V/driver" && cargo build --release --offline >"$W/driver.log" 2>&1) || { tail -30 "$W/driver.log" >&2; exit 3; }
fi
[ "${1:-}" = build ] && exit 0
OUT=$1
KEY=$( (cd "$R" && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum < "$DRV"; rustc -V) | sha256sum | cut -c1-32)
CACHE="$W/facts-$KEY.json"
TGT="$W/target"
if [ "${2:-}" = release ]; then
  CACHE="$W/release.json"; TGT="$W/target-release"; rm -f "$CACHE"
  export RUSTFLAGS="-C debug-assertions=off -C overflow-checks=off"
fi
if [ ! -s "$CACHE" ] || [ "${2:-}" = fresh ]; then
  SRC="$R"
  if [ ! -f "$R/Cargo.lock" ] ; then
    # the lock file is git-ignored: analyse a mirror that has the pinned one, never write into the repository
    rm -rf "${W:?}/mirror"; mkdir -p "$W/mirror"
    (cd "$R" && tar --exclude=./target --exclude=./.git -cf - .) | tar -C "$W/mirror" -xf -
    cp /opt/vp/Cargo.lock "$W/mirror/Cargo.lock" 2>/dev/null || cp "$V/Cargo.lock.pinned" "$W/mirror/Cargo.lock"
    SRC="$W/mirror"
  fi
  rm -rf "${TGT:?}/debug/.fingerprint"/kyber-rs-* "${TGT:?}/debug/build/kyber-rs" "${TGT:?}/debug/incremental" "$W/tmp.json"
  (cd "$SRC" && LD_LIBRARY_PATH="$SYS/lib" KYFACTS_OUT="$W/tmp.json" RUSTC_WORKSPACE_WRAPPER="$DRV" CARGO_TARGET_DIR="$TGT" \
     cargo check --offline --locked --lib >"$W/extract.log" 2>&1) || { cat "$W/extract.log" >&2; exit 4; }
  [ -s "$W/tmp.json" ] || { echo "no facts were written" >&2; exit 5; }
  [ "${2:-}" = release ] || rm -f "$W"/facts-*.json
  mv "$W/tmp.json" "$CACHE"
fi
cp "$CACHE" "$OUT"
