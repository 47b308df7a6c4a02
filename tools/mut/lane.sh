#!/bin/bash
# lane.sh N: worker
N=$1; L=/tmp/plant/mut/L$N
mkdir -p $L/repo $L/verif
rsync -a --delete /tmp/plant/devrepo/ $L/repo/
rsync -a --delete --exclude /seeded --exclude /.git /tmp/plant/dev/ $L/verif/
export L N
exec unshare -Urm bash -c 'mount --bind $L/repo /repo && mount --bind $L/verif /verif && cd /verif && . ./env.sh && exec python3 /tmp/plant/mut/run.py $N'
