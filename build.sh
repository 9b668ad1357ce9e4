#!/bin/bash
# Builds the simulator against /repo's current working tree.
# usage: build.sh [core]: core leaves out the crates that /opt/vp/build.sh does not build.
# Crates whose sources changed since the last build (by content, not by time stamp) are rebuilt.
set -e
V="$(cd "$(dirname "$0")" && pwd)"
R=/repo
S="$V/sim"
mkdir -p "$S/target"
exec 9>"$S/target/.ksim-lock"
flock 9
# shim crates: their sources are links into /repo
link() { # target link
  if [ "$(readlink "$2" 2>/dev/null)" != "$1" ]; then ln -sfn "$1" "$2"; fi
}
for c in formats vfs tools; do
  mkdir -p "$S/shims/keramics-$c"
  link "$R/keramics-$c/src" "$S/shims/keramics-$c/src"
done
link "$R/keramics-tools/src" "$S/shims/keramics-toolscore/src"
C="$S/shims/keramics-compression/src"
mkdir -p "$C"
for l in "$C"/*; do
  if [ -L "$l" ] && [ ! -e "$l" ]; then unlink "$l"; fi
done
for f in "$R"/keramics-compression/src/*; do link "$f" "$C/$(basename "$f")"; done
if [ ! -e "$R/keramics-compression/src/lzxpress.rs" ]; then
  link "$S/stubs/lzxpress.rs" "$C/lzxpress.rs"
fi
cd "$S"
mkdir -p target/stamps
for c in checksums compression core datetime encodings formats hashes layout-map sigscan types vfs tools; do
  d="$R/keramics-$c"
  [ -d "$d" ] || continue
  h=$( (cd "$d" && find . -type f -not -path './target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
  o=$(cat "target/stamps/$c" 2>/dev/null || true)
  if [ "$h" != "$o" ]; then
    p="keramics-$c"
    cargo clean --release --offline -q -p "$p" 2>/dev/null || true
    [ "$c" = tools ] && cargo clean --release --offline -q -p keramics-toolscore 2>/dev/null || true
    echo "$h" > "target/stamps/$c"
  fi
done
h=$(find src stubs Cargo.toml Cargo.lock shims -name '*.rs' -o -name '*.toml' -o -name Cargo.lock | LC_ALL=C sort | xargs sha256sum | sha256sum | cut -d' ' -f1)
if [ "$h" != "$(cat target/stamps/ksim 2>/dev/null || true)" ]; then
  cargo clean --release --offline -q -p ksim 2>/dev/null || true
  echo "$h" > target/stamps/ksim
fi
if [ "${1:-}" = core ]; then W="-p ksim --no-default-features --bin ksim-core"; else W="--workspace"; fi
cargo build --release --offline --locked $W -q 2>target/build.log || { grep -A12 '^error' target/build.log >&2 || tail -40 target/build.log >&2; exit 2; }
