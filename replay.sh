#!/bin/bash
# replay.sh FILE: builds the simulator from /repo and replays a recorded violation.
# Ends with 1 and a REPRODUCED line if it shows again, with 0 if it does not.
bash /verif/build.sh || exit 3
. /verif/env.sh
exec "$CARGO_TARGET_DIR/release/aosim" replay "$@"
