#!/bin/bash
# demonstration: builds main.rs (beside this file) against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export PATH="$HOME/.cargo/bin:/usr/local/cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTFLAGS=-Awarnings
mkdir -p "$tmp/d/src"
cp "$here/main.rs" "$tmp/d/src/main.rs"
printf '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\ntomllib = { path = "%s" }\n[workspace]\n' "$repo" > "$tmp/d/Cargo.toml"
if [ -e "$here/needs-tomlkit" ]; then
  cargo build -q --offline --bin tomlkit --target-dir "$tmp/kit" || exit 2
  export TOMLKIT="$tmp/kit/debug/tomlkit"
fi
cd "$tmp/d" || exit 2
cargo build -q --offline --target-dir "$tmp/t" || exit 2
mkdir "$tmp/scratch" && cd "$tmp/scratch" || exit 2
timeout 60 "$tmp/t/debug/demo"
