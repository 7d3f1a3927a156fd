#!/usr/bin/env bash
# Run in the root of the repository; builds main.rs (beside this file) against it and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"; root="$PWD"
export RUSTUP_TOOLCHAIN=nightly-2026-07-07-x86_64-unknown-linux-gnu PATH="/root/.cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTFLAGS
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/main.rs" "$d/src/main.rs"; cp Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[workspace]
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
rustsat = { path = "$root", features = ["optimization", "multiopt", "compression", "rand", "proof-logging", "_internals"] }
anyhow = "1"
T
[ -f "$here/deps.toml" ] && sed "s#@ROOT@#$root#g" "$here/deps.toml" >> "$d/Cargo.toml"
cd "$d" || exit 3
cargo build --offline -q 2>"$d/log" || { tail -30 "$d/log" >&2; exit 3; }
cd "$d" && timeout 120 ./target/debug/demo
