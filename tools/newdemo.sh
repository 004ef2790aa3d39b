#!/bin/bash
# newdemo.sh ID [pair]: scaffold seeded/ID (a demonstration crate) from tools/demo
here=$(cd "$(dirname "$0")/.." && pwd); d=$here/seeded/$1; mkdir -p "$d/src"
cp "$here/tools/demo/demo.sh" "$d/demo.sh"; cp "$here/tools/demo/${2:-pair}.rs" "$d/src/"; cp "$here/sim/Cargo.lock" "$d/Cargo.lock"
sed "s/^name = \"lysim\"/name = \"lydemo_$(echo $1 | tr '[:upper:]-' '[:lower:]_')\"/" "$here/sim/Cargo.toml" > "$d/Cargo.toml"
sed -i "s/^name = \"lysim\"/name = \"lydemo_$(echo $1 | tr '[:upper:]-' '[:lower:]_')\"/" "$d/Cargo.lock"
