#!/bin/bash
# Builds the simulator (lysim) from /repo's working tree, with the simulation hooks on.
# Build products go to /repo/target, which git ignores and where the repository's own third-party
# build products can be reused; nothing else is written outside /verif.
set -e
here=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; else export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/repo/target; fi
mkdir -p "$CARGO_TARGET_DIR"
stamp=$CARGO_TARGET_DIR/lysim.stamp
now=$(cd /repo && find crates -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
if [ "$now" != "$(cat "$stamp" 2>/dev/null)" ] || [ ! -x "$CARGO_TARGET_DIR/debug/lysim" ]; then
  # contents differ from what was last built: do not rely on file times to notice it
  find /repo/crates -path '*/src/lib.rs' -exec touch {} +
fi
cd "$here/sim"
cargo build --offline --quiet 2>"$CARGO_TARGET_DIR/lysim.log" || { cat "$CARGO_TARGET_DIR/lysim.log" >&2; exit 2; }
echo "$now" > "$stamp"
