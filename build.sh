#!/bin/bash
# Builds the simulator, three ways, from /repo's current working tree.
cd /verif || exit 3
. /verif/env.sh
export RUSTC_WRAPPER=/verif/tools/rustc-wrap.sh
mkdir -p "$CARGO_TARGET_DIR" work evidence replays
# Not by time stamps alone: whenever the contents of the program changed, its objects go first.
now=$(find /repo/program /repo/js/src -type f -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
if [ "$now" != "$(cat "$CARGO_TARGET_DIR/.repo-contents" 2>/dev/null)" ]; then
  rm -f "$CARGO_TARGET_DIR/.repo-contents" "$CARGO_TARGET_DIR/js/reader.mjs"
  for p in release wrap chain; do
    if [ -d "$CARGO_TARGET_DIR/$p" ]; then
      (cd sim && cargo clean --offline --profile $p -p asset-agnostic-orderbook -p aosim >/dev/null 2>&1)
    fi
  done
fi
for p in release wrap chain; do
  (cd sim && cargo build --offline --profile $p --quiet 2>"$CARGO_TARGET_DIR/build-$p.log") &
done
wait
for p in release wrap; do
  if ! (cd sim && cargo build --offline --profile $p --quiet 2>"$CARGO_TARGET_DIR/build-$p.log"); then
    echo "the simulator does not build against /repo ($p):"
    grep -E '^error' -A8 "$CARGO_TARGET_DIR/build-$p.log" | head -40
    exit 3
  fi
done
# Code that builds for the host only is decided by the host builds alone.
(cd sim && cargo build --offline --profile chain --quiet 2>"$CARGO_TARGET_DIR/build-chain.log") ||
  rm -f "$CARGO_TARGET_DIR/chain/aosim"
# The TypeScript decoders; a failure here concerns C26 only (see check.sh).
bash js/build.sh "$CARGO_TARGET_DIR/js/reader.mjs" 2>"$CARGO_TARGET_DIR/build-js.log" ||
  rm -f "$CARGO_TARGET_DIR/js/reader.mjs"
echo "$now" >"$CARGO_TARGET_DIR/.repo-contents"
