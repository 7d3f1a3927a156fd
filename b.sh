#!/usr/bin/env bash
# developer helper: build harness crate $1
. /verif/env.sh; cd /verif/${1:-harness} && cargo build --offline 2>&1 | grep -E "^(error|warning: unused)|-->|^\s+\|" | head -${2:-60}
