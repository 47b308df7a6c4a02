#!/bin/bash
# try.sh ID...: confirms a planted bug (applies, builds, stable tests pass, demo tells the trees apart)
# and runs its property's check against it. Everything happens in copies under /tmp/plant/lane, mounted
# over /repo and /verif in a mount namespace of this script's own, so the real trees are never touched.
# SKIP=1: no confirmation; P=Cxx: another property's check.
L=${LANE:-/tmp/plant/lane}
if [ -z "$INSIDE" ]; then
  mkdir -p $L/repo $L/verif $L/seeded
  rsync -a --delete /repo/ $L/repo/ && rsync -a --delete --exclude /seeded --exclude /.git /verif/ $L/verif/ && rsync -a --delete /verif/seeded/ $L/seeded/
  mkdir -p $L/clean; rsync -a --delete /repo/ $L/clean/
  export INSIDE=1 LANE=$L
  exec unshare -Urm bash -c 'mount --bind $LANE/repo /repo && mount --bind $LANE/verif /verif && cd /verif && exec bash /verif/tools/plant/try.sh "$@"' x "$@"
fi
. /opt/vp/env.sh
R=/repo
mkdir -p $L/out
for id in "$@"; do
  d=$L/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  o=$L/out/$id
  git -C $R checkout -q -- . && git -C $R apply $d/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
  if [ -z "$SKIP" ]; then
  (cd $R/program && RUST_LOG=off cargo test --no-fail-fast --offline -- --test-threads 8) >$o.test 2>&1
  bad=$(grep -E '^test .* FAILED$' $o.test | grep -v market_cast)
  n=$(grep -cE '^test .* ok$' $o.test)
  if [ -n "$bad" ] || [ "$n" -lt 10 ]; then echo "$id: TESTS FAIL ($n ok) $bad"; git -C $R checkout -q -- .; continue; fi
  (cd $R && bash $d/demo.sh) >$o.demo1 2>&1; p=$?
  (cd $L/clean && bash $d/demo.sh) >$o.demo0 2>&1; u=$?
  if grep -q 'could not compile' $o.demo0 $o.demo1; then echo "$id: DEMO DOES NOT COMPILE"; continue; fi
  if [ $u -ne 0 ] || [ $p -eq 0 ]; then echo "$id: DEMO unchanged=$u patched=$p"; continue; fi
  fi
  s=$(date +%s)
  (cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash check.sh ${P:-$prop}) >$o.check 2>&1; c=$?
  e=$(date +%s)
  git -C $R checkout -q -- .
  echo "$id: ok; check ${P:-$prop} exit $c in $((e-s))s: $(grep -E '^VIOLATION' $o.check | head -1) $([ $c -eq 1 ] && echo CAUGHT || echo MISSED)"
done
