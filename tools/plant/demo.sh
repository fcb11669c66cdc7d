#!/bin/bash
# cwd: the crate.  Exit 0: every case in cases.txt behaves as recorded; nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
S=$(mktemp -d) || exit 2
trap 'rm -rf "$S"' EXIT
mkdir "$S/src"
cp "$here/main.rs" "$S/src/main.rs"
cp "$repo/Cargo.lock" "$S/Cargo.lock" 2>/dev/null
feat=; [ -f "$here/no-default-features" ] && feat='default-features = false,'
cat > "$S/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
zune-jpeg = { $feat path = "$repo" }
T
cd "$S" || exit 2
export CARGO_TARGET_DIR=$S/target
[ -f "$here/rustflags" ] && export RUSTFLAGS="$(cat "$here/rustflags")"
profile=--release; [ -f "$here/debug" ] && profile=
cargo build -q $profile --offline 2>"$S/log" || { cat "$S/log"; exit 2; }
[ -n "$profile" ] && bin=$S/target/release/demo || bin=$S/target/debug/demo
timeout 90 "$bin" "$here" $DEMO_PRINT
