#!/usr/bin/env bash
# usage: check.sh <harness crate> <binary> <property id>
# Builds the harness against /repo's working tree and runs one check.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
crate="$1"; bin="$2"; id="$3"
. "$here/env.sh"
cd "$here/$crate" || exit 2
if ! cargo build --offline --bin "$bin" >"$here/target/build-$crate.log" 2>&1; then
  if ! cargo build --offline --bin "$bin" >"$here/target/build-$crate.log" 2>&1; then
    tail -40 "$here/target/build-$crate.log" >&2
    echo "BUILD FAILED for $crate" >&2
    exit 2
  fi
fi
if [ -f prebuild.sh ]; then
  # binaries of /repo that the check runs
  if ! bash prebuild.sh >"$here/target/prebuild-$crate.log" 2>&1; then
    if ! bash prebuild.sh >"$here/target/prebuild-$crate.log" 2>&1; then
      tail -40 "$here/target/prebuild-$crate.log" >&2
      echo "BUILD FAILED for the programs $crate runs" >&2
      exit 2
    fi
  fi
fi
cd "$here" || exit 2
exec "$CARGO_TARGET_DIR/debug/$bin" run "$id"
