#!/bin/bash
# Build the harness against /repo's current working tree, with the hooks on.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/harness"
# the stable compiler the repository is built with, if rustup is there
if command -v rustup >/dev/null 2>&1; then export RUSTUP_TOOLCHAIN="${HMC_TOOLCHAIN:-stable}"; fi
export CARGO_NET_OFFLINE=true
export RUSTFLAGS="-A warnings -A semicolon_in_expressions_from_macros --cfg hastur_verif"
export CARGO_TARGET_DIR="$here/harness/target"
# rebuild hastur whenever its content differs from what was last built (not only when it looks newer)
mkdir -p target
sum="$(cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)"
if [ "$(cat target/repo.sum 2>/dev/null)" != "$sum" ]; then
  rm -f target/repo.sum
  cargo clean --offline --release -p hastur -p hastur-mc >/dev/null 2>&1 || true
fi
cargo build --release --offline --quiet
echo "$sum" > target/repo.sum
