#!/bin/bash
# check.sh PROPERTY: rebuilds the simulator from /repo's working tree and decides one property.
# VERIF_SEED chooses the base seed, VERIF_TIER the depth (quick or thorough).
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
bash "$here/build.sh" || { echo "build of the simulator failed"; exit 2; }
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export LYSIM_VERIF="$here"
exec "${CARGO_TARGET_DIR:-/repo/target}/debug/lysim" check "$1" "${2:-${VERIF_TIER:-quick}}"
