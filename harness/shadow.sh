#!/bin/bash
# usage: shadow.sh <verif dir>
# The repository's workspace does not build as a whole: keramics-compression declares a module (lzxpress) whose
# source is not in the repository, and formats, vfs and tools depend on it. This lays out /verif/shadow: the same
# crates, every source file a symbolic link into /repo, plus a stand-in for each declared module that has no source
# file (lzxpress: every call fails). Nothing is copied, so a change in /repo is what gets built.
set -e
here="${1:?verif dir}"; dst="$here/shadow"; repo=/repo
mkdir -p "$dst"
crates="checksums compression core datetime encodings formats hashes layout-map sigscan types vfs tools"
put() { # put <file> : writes stdin, only when different, so that nothing is rebuilt for it
  cat > "$1.new"; if cmp -s "$1.new" "$1" 2>/dev/null; then rm -f "$1.new"; else mv "$1.new" "$1"; fi; }
{ echo '[workspace]'; echo 'members = ['; for c in $crates; do echo "  \"keramics-$c\","; done; echo ']'; echo 'resolver = "2"'
  sed -n '/^\[workspace.package\]/,/^\[/p' "$repo/Cargo.toml" | sed '1!{/^\[/d}'
} | put "$dst/Cargo.toml"
[ -f "$repo/Cargo.lock" ] && put "$dst/Cargo.lock" < "$repo/Cargo.lock"
for c in $crates; do
  d="$dst/keramics-$c"; mkdir -p "$d"
  put "$d/Cargo.toml" < "$repo/keramics-$c/Cargo.toml"
  if [ "$c" = compression ]; then
    [ -L "$d/src" ] && rm -f "$d/src"; mkdir -p "$d/src"
    for f in "$repo/keramics-$c"/src/*.rs; do ln -sfn "$f" "$d/src/$(basename "$f")"; done
    if [ ! -f "$repo/keramics-$c/src/lzxpress.rs" ]; then
      put "$d/src/lzxpress.rs" <<'R'
//! Stand-in for a module that the repository declares without providing its source.
use keramics_core::ErrorTrace;
macro_rules! stand_in {
    ($name:ident) => {
        pub struct $name {
            pub uncompressed_data_size: usize,
        }
        impl $name {
            pub fn new() -> Self {
                Self { uncompressed_data_size: 0 }
            }
            pub fn decompress(&mut self, _compressed_data: &[u8], _uncompressed_data: &mut [u8]) -> Result<(), ErrorTrace> {
                Err(keramics_core::error_trace_new!("source not available"))
            }
        }
    };
}
stand_in!(LzxpressContext);
stand_in!(LzxpressHuffmanContext);
R
    fi
  elif [ "$c" = formats ]; then
    # The harness also drives private modules (block tree, cache, plist): the stand-in for lib.rs declares the same modules, all public.
    [ -L "$d/src" ] && rm -f "$d/src"; mkdir -p "$d/src"
    find "$d/src" -maxdepth 1 -type l -delete
    for f in "$repo/keramics-$c"/src/*; do
      n="$(basename "$f")"
      if [ -d "$f" ]; then ln -sfn "$f" "$d/src/$n"
      elif [ "$n" != lib.rs ]; then sed -E 's/^( *)pub\(crate\) /\1pub /' "$f" | put "$d/src/$n"; fi
    done
    sed -E 's/^(pub\([a-z]+\) )?mod ([a-z_0-9]+);/pub mod \2;/' "$repo/keramics-$c/src/lib.rs" | put "$d/src/lib.rs"
  else
    ln -sfn "$repo/keramics-$c/src" "$d/src"
  fi
done
