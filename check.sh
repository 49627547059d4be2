#!/bin/bash
# usage: check.sh <property id> [--thorough] [--replay FILE]
# Builds the harness of one property from /repo's working tree and runs it.
# exit 0: held; exit 1 + VIOLATION line: broken; anything else: the check itself failed.
id="${1:?property id}"; shift
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$here/target" CARGO_INCREMENTAL=0
unset RUSTFLAGS
line="$(grep -E "^$id " "$here/checks.txt")" || { echo "unknown property $id" >&2; exit 2; }
read -r _ crate bin <<<"$line"
dir="$here/harness/$crate"
if [ -x "$dir/prepare.sh" ]; then
  "$dir/prepare.sh" "$here" > "$here/target-prepare-$id.log" 2>&1 || { cat "$here/target-prepare-$id.log" >&2; echo "prepare failed" >&2; exit 2; }
  [ -f "$dir/.manifest_dir" ] && dir="$(cat "$dir/.manifest_dir")"
fi
mkdir -p "$CARGO_TARGET_DIR"
# Cargo compares modification times; forget what was built when the contents of the sources differ.
sum="$(cd /repo && find keramics* docs -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/sources.sum" 2>/dev/null)" ]; then
  rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/keramics* "$CARGO_TARGET_DIR"/debug/.fingerprint/mdbook* "$CARGO_TARGET_DIR"/debug/.fingerprint/mc-tools*
  echo "$sum" > "$CARGO_TARGET_DIR/sources.sum"
fi
# The programs that the check runs.
bins=(--bin "$bin")
[ -f "$here/harness/$crate/bins" ] && for b in $(cat "$here/harness/$crate/bins"); do bins+=(--bin "$b"); done
if ! cargo build --offline --manifest-path "$dir/Cargo.toml" "${bins[@]}" > "$CARGO_TARGET_DIR/build-$id.log" 2>&1; then
  tail -60 "$CARGO_TARGET_DIR/build-$id.log" >&2
  # A derive macro that fails on, or generates invalid code for, one of the enumerated layouts breaks C13.
  if [ "$crate" = layout ] && grep -qE 'proc-macro derive panicked|/out/layouts\.rs:' "$CARGO_TARGET_DIR/build-$id.log"; then
    mkdir -p "$here/evidence/replay" && cp "$CARGO_TARGET_DIR/build-$id.log" "$here/evidence/replay/$id-build.txt"
    echo "VIOLATION property=$id replay=$here/evidence/replay/$id-build.txt"
    exit 1
  fi
  echo "check $id: build failed" >&2
  exit 2
fi
[ -n "$VERIF_BUILD_ONLY" ] && exit 0
exec "$CARGO_TARGET_DIR/debug/$bin" "$@"
