. /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true
