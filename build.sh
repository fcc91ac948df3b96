#!/bin/bash
# Builds the variants of the simulator from /repo's working tree. Serialised by a lock; a content
# hash decides whether the crates are rebuilt, so file times cannot hide a change. If a variant
# other than the shipped one cannot be built (its cargo feature is gone, say), it is built with the
# shipped features.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
SIM="$HERE/sim"
OUT="$SIM/target"
mkdir -p "$OUT"
exec 9>"$OUT/.lock"
flock 9
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
H=$( (cd /repo && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum;
      cd "$SIM" && find src Cargo.toml Cargo.lock -type f | LC_ALL=C sort | xargs sha256sum; rustc -V
      sha256sum <"$HERE/build.sh") | sha256sum | cut -d' ' -f1)
build() { # dir, binary, args...
  local d="$OUT/$1"; shift
  local bin=$1; shift
  if [ "$(cat "$d/stamp" 2>/dev/null)" = "$H" ] && [ -x "$bin" ]; then return 0; fi
  rm -f "$d/stamp"
  (cd "$SIM" && cargo clean --offline --target-dir "$d" "${CLEAN[@]}" -p siamesedb -p sim >/dev/null 2>&1
   cargo build --offline --target-dir "$d" "$@" 2>"$d.log") || { cat "$d.log" >&2; return 1; }
  echo "$H" >"$d/stamp"
}
v1() {
  build v1 "$OUT/v1/checked/sim" --profile checked --features small ||
    { echo "note: the variant with small nodes does not build; it is replaced by the shipped features" >&2
      build v1 "$OUT/v1/checked/sim" --profile checked; }
}
v2() {
  export RUSTFLAGS="--cfg siamesedb_small_chunks"
  build v2 "$OUT/v2/release/sim" --release --features small ||
    { echo "note: the variant with small nodes does not build; it is replaced by the shipped features" >&2
      build v2 "$OUT/v2/release/sim" --release; }
}
CLEAN=(--release);         build v0 "$OUT/v0/release/sim" --release & P0=$!
CLEAN=(--profile checked); v1                                       & P1=$!
CLEAN=(--release);         v2                                       & P2=$!
wait $P0; R0=$?; wait $P1; R1=$?; wait $P2; R2=$?
[ $R0 = 0 ] && [ $R1 = 0 ] && [ $R2 = 0 ] || { echo "build failed" >&2; exit 2; }
