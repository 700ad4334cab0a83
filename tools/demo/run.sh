#!/bin/bash
# Builds and runs the program main.rs (beside this file) against the crates of /repo, in a scratch folder.
# exit 0: the property holds on the program's inputs; otherwise it does not.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
. /opt/vp/env.sh >/dev/null 2>&1
cd "$repo" || exit 2
work="$(mktemp -d)" || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
sed "s|\"/repo/|\"$repo/|" "$here/main.rs" > "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
{
  printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n'
  for c in embedding encoding feature image-features signature three-bit-quantization utils watermarking moments pseudo-zernike zernike web; do
    d="$repo/lib/sia/rust/$c"
    n="$(sed -n 's/^name *= *"\(.*\)"/\1/p' "$d/Cargo.toml" | head -1)"
    grep -q "^//! *uses:.*\b$c\b" "$here/main.rs" && printf '%s = { path = "%s" }\n' "$n" "$d"
  done
  sed -n 's/^\/\/! *needs: *//p' "$here/main.rs"
} > "$work/Cargo.toml"
cd "$work" || exit 2
export CARGO_TARGET_DIR="$work/target"
cargo build --offline -q 2> "$work/log" || { tail -30 "$work/log" >&2; exit 2; }
(cd "$work" && timeout 200 ./target/debug/demo)
