#!/bin/bash
# Builds /repo's hyperbee (the directory this is started in) against the in-memory stand-ins for the crates that
# are missing here (kit/), runs demo.rs on it, and exits with what demo.rs says: 0 as expected, 1 not.
R="$PWD"; D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)" || exit 2
trap 'rm -rf "$W"' EXIT
cp -r "$D/kit/." "$W/"; mkdir -p "$W/demo/src"; cp "$D/demo.rs" "$W/demo/src/main.rs"
sed -i "s#@REPO@#$R#g" "$W/hb/Cargo.toml"
ln -s "$R/src" "$W/hb/src"; cd "$W" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target"
cargo build -q --offline -p demo 2>"$W/log" || { tail -40 "$W/log"; exit 3; }
timeout 120 "$W/target/debug/demo"
rc=$?
[ $rc = 0 ] && echo "demo: as expected" || echo "demo: NOT as expected ($rc)"
exit $rc
