#!/bin/bash
# check.sh PROPERTY: builds the simulator from /repo and decides the property by seeded search.
# VERIF_SEED and VERIF_TIER (quick or thorough) are read from the environment.
bash /verif/build.sh || exit 3
. /verif/env.sh
if { [ "$1" = C26 ] || [ "$1" = C31 ]; } && [ ! -f "$CARGO_TARGET_DIR/js/reader.mjs" ]; then
  echo "the TypeScript decoders do not build:"
  head -20 "$CARGO_TARGET_DIR/build-js.log"
  exit 3
fi
exec "$CARGO_TARGET_DIR/release/aosim" check "$1"
