#!/usr/bin/env bash
# builds the Python module from /repo's working tree and lays the package out (environment set by the caller)
set -e
cargo build --manifest-path /repo/pyapi/Cargo.toml --lib --offline --locked
d="$CARGO_TARGET_DIR/pypkg"
mkdir -p "$d"
cp -R /repo/pyapi/python/. "$d/"
cp "$CARGO_TARGET_DIR/debug/librustsat_pyapi.so" "$d/rustsat/rustsat.abi3.so"
