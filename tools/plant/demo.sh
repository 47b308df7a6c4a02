#!/bin/bash
# Runs demo.rs as an integration test of a scratch copy of the program in the current directory.
# Exit 0: the property holds in the demonstrated situation.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; else export RUSTUP_TOOLCHAIN=1.76.0 CARGO_NET_OFFLINE=true; fi
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/program/tests"
cp -a "$repo/program/Cargo.toml" "$repo/program/Cargo.lock" "$repo/program/src" "$repo/program/benches" "$tmp/program/"
cp "$here/demo.rs" "$here/h.rs" "$tmp/program/tests/"
rm -f "$tmp/program/tests/h.rs"; mkdir "$tmp/program/tests/h"; cp "$here/h.rs" "$tmp/program/tests/h/mod.rs"
cd "$tmp/program" || exit 2
# the dependencies built already are used; what is built here goes into the scratch folder
mkdir -p "$tmp/target"
if [ -d "$repo/program/target/debug" ]; then cp -a "$repo/program/target/debug" "$tmp/target/"; fi
feat=""; if [ -f "$here/features" ]; then feat=$(cat "$here/features"); fi
CARGO_TARGET_DIR="$tmp/target" RUST_LOG=off cargo test --offline --features "$feat" --test demo -- --test-threads 1 >"$tmp/log" 2>&1
rc=$?
tail -25 "$tmp/log"
exit $rc
