#!/bin/bash
# Builds and runs main.rs (beside this file) against the crates of the repository in the
# current directory. Exit 0: the property holds.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
{
  echo '[package]'
  echo 'name = "demo"'
  echo 'version = "0.1.0"'
  echo 'edition = "2024"'
  echo '[workspace]'
  echo '[dependencies]'
  for c in checksums core datetime encodings hashes layout-map sigscan types; do
    echo "keramics-$c = { path = \"$R/keramics-$c\" }"
  done
} > "$T/Cargo.toml"
cd "$T" || exit 3
CARGO_TARGET_DIR="$T/target" cargo build --release --offline -q || exit 4
timeout 120 "$T/target/release/demo"
