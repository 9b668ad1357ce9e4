#!/bin/bash
# Builds and runs main.rs (beside this file) against the crates of the repository in the
# current directory. Exit 0: the property holds.
# The repository at this commit lacks keramics-compression/src/lzxpress.rs, a stub stands in
# for it so that the crates that need it compile.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/demo/src" "$T/keramics-compression/src"
cp "$D/main.rs" "$T/demo/src/main.rs"
cp -r "$R/keramics-compression/src/." "$T/keramics-compression/src/"
[ -e "$T/keramics-compression/src/lzxpress.rs" ] || cp "$D/lzxpress_stub.rs" "$T/keramics-compression/src/lzxpress.rs"
for c in checksums core datetime encodings hashes layout-map sigscan types; do
  ln -s "$R/keramics-$c" "$T/keramics-$c"
done
crate() { # name deps...
  n=$1; shift
  mkdir -p "$T/keramics-$n"
  [ -e "$T/keramics-$n/src" ] || ln -s "$R/keramics-$n/src" "$T/keramics-$n/src"
  {
    echo '[package]'
    echo "name = \"keramics-$n\""
    echo 'version = "0.0.1"'
    echo 'edition = "2024"'
    echo '[dependencies]'
    for d in "$@"; do echo "keramics-$d = { path = \"$(dep "$d")\" }"; done
    if [ "$n" = formats ]; then echo 'pest = "2.8.2"'; echo 'pest_derive = "2.8.2"'; fi
  } > "$T/keramics-$n/Cargo.toml"
}
dep() {
  case $1 in
    compression|formats|vfs) echo "$T/keramics-$1" ;;
    *) echo "$R/keramics-$1" ;;
  esac
}
crate compression checksums core layout-map types
crate formats checksums compression core datetime encodings hashes layout-map sigscan types
crate vfs core datetime formats sigscan types
{
  echo '[package]'
  echo 'name = "demo"'
  echo 'version = "0.1.0"'
  echo 'edition = "2024"'
  echo '[workspace]'
  echo '[dependencies]'
  for c in checksums compression core datetime encodings formats hashes layout-map sigscan types vfs; do
    echo "keramics-$c = { path = \"$(dep $c)\" }"
  done
} > "$T/demo/Cargo.toml"
cp "$R/Cargo.lock" "$T/demo/Cargo.lock" 2>/dev/null
cd "$T/demo" || exit 3
CARGO_TARGET_DIR="$T/target" cargo build --release --offline -q 2>/dev/null || exit 4
# The images the demonstration reads and what it should find in them.
if [ -e "$D/images.tgz" ]; then
  tar -C "$T" -xzf "$D/images.tgz" || exit 3
  cp "$D/expect.txt" "$T/expect.txt"
  cd "$T" || exit 3
fi
ulimit -v 8388608
timeout 120 "$T/target/release/demo"
