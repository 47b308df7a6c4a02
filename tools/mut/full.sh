#!/bin/bash
# full.sh N IDS...: full checks on mutants, in lane F$N
N=$1; shift; L=/tmp/plant/mut/F$N
mkdir -p $L/repo $L/verif
rsync -a --delete /tmp/plant/devrepo/ $L/repo/
rsync -a --delete --exclude /seeded --exclude /.git --exclude /work /tmp/plant/dev/ $L/verif/
export L N
exec unshare -Urm bash -c 'mount --bind $L/repo /repo && mount --bind $L/verif /verif && cd /verif && . ./env.sh && exec python3 /tmp/plant/mut/full.py "$@"' x "$@"
