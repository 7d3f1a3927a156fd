#!/usr/bin/env bash
# Builds everything the checks need (offline).
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/env.sh"
rc=0
for c in harness solvers kissatc apis toolsc ipasirc pyc; do
  (cd "$here/$c" && cargo build --offline) || rc=1
  [ ! -f "$here/$c/prebuild.sh" ] || (cd "$here/$c" && bash prebuild.sh) || rc=1
done
exit $rc
