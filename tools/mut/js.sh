#!/bin/bash
L=/tmp/plant/mut/J
mkdir -p $L/repo $L/verif
rsync -a --delete /tmp/plant/devrepo/ $L/repo/
rsync -a --delete --exclude /seeded --exclude /.git --exclude /work /tmp/plant/dev/ $L/verif/
export L
exec unshare -Urm bash -c 'mount --bind $L/repo /repo && mount --bind $L/verif /verif && cd /verif && . ./env.sh && bash build.sh && exec python3 /tmp/plant/mut/js.py'
