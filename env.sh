# Environment for building the harness (sourced)
_here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
_old="$PWD"
if [ -f /opt/vp/rs/env.sh ]; then . /opt/vp/rs/env.sh; fi
cd "$_old" || exit 2
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$_here/target"
export VERIF_ROOT="$_here"
export INSTA_UPDATE=no
mkdir -p "$CARGO_TARGET_DIR" "$_here/evidence"
