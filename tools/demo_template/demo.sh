#!/bin/bash
# Builds a copy of the tree together with main.rs beside this file and runs it.
# Exit 0: the property held. Everything happens in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTDOCFLAGS CARGO_ENCODED_RUSTFLAGS
S=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
mkdir -p "$S/repo" "$S/demo/src"
tar --exclude=./target --exclude=./.git -cf - . | tar -xf - -C "$S/repo" || exit 2
# This checkout lacks a large precomputed multiplier; the demo multiplies nothing that wide.
d="$S/repo/mux_circuits/src/data"
[ -e "$d/multiplier-n32-m32" ] || cp "$d/multiplier-n16-m16" "$d/multiplier-n32-m32"
cp "$here/main.rs" "$S/demo/src/main.rs"
cp Cargo.lock "$S/demo/Cargo.lock"
cat > "$S/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
parasol_concurrency = { path = "../repo/parasol_concurrency" }
parasol_runtime = { path = "../repo/parasol_runtime" }
parasol_cpu = { path = "../repo/parasol_cpu" }
sunscreen_tfhe = { path = "../repo/sunscreen_tfhe" }
rayon = "1"
bincode = "1"
serde = "1"
[profile.release]
opt-level = 2
debug-assertions = false
codegen-units = 16
T
cd "$S/demo" || exit 2
CARGO_TARGET_DIR="$S/target" cargo build --release --offline > "$S/build.log" 2>&1 || { tail -40 "$S/build.log"; exit 2; }
timeout 100 "$S/target/release/demo"
