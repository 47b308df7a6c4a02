#!/bin/bash
N=$1; L=/tmp/plant/gm/L$N
mkdir -p $L/repo $L/verif
rsync -a --delete --exclude program/target /tmp/plant/devrepo/ $L/repo/
rsync -a --delete --exclude /seeded --exclude /.git --exclude /target/wrap --exclude /target/chain /tmp/plant/dev/ $L/verif/
export L N
export GMLIST GMOUT; exec unshare -Urm bash -c 'mount --bind $L/repo /repo && mount --bind $L/verif /verif && cd /verif && . ./env.sh && exec python3 /tmp/plant/gm/run.py $N'
