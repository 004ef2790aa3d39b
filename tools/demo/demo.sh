#!/bin/bash
# Builds the demonstration against /repo's crates and runs it: exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/repo/target CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_LINKER=/usr/bin/gcc CC_x86_64_unknown_linux_gnu=/usr/bin/gcc
find /repo/crates -path '*/src/lib.rs' -exec touch {} +
cd "$here" || exit 2
cargo build --offline --quiet || { echo "the demonstration does not build"; exit 3; }
exec timeout 100 "/repo/target/debug/$(sed -n 's/^name = "\(lydemo[^"]*\)"/\1/p' Cargo.toml | head -1)"
