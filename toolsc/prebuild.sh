#!/usr/bin/env bash
# builds the tools from /repo's working tree (environment set by the caller)
exec cargo build --manifest-path /repo/tools/Cargo.toml --bins --offline --locked
