#!/bin/bash
# tryseeds.sh [ID...]: run the property's check on a scratch copy of /repo with the planted bug
cd /verif
[ $# = 0 ] && set -- $(ls seeded)
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  w=/tmp/tryseed-$$; rm -rf "$w"; cp -a /repo "$w"
  git -C "$w" apply /verif/seeded/$i/patch.diff || echo APPLY FAILED
  VERIF_REPO=$w python3-vt check.py $p > /tmp/tryseed-$i.log 2>&1; rc=$?
  echo "== $i ($p) rc=$rc $(grep -c 'FAILED OBL' /tmp/tryseed-$i.log) failed obligations; $(grep '^VIOLATION' /tmp/tryseed-$i.log) $(grep 'FAILING INPUT' /tmp/tryseed-$i.log | cut -c1-150)"
  tail -4 /tmp/tryseed-$i.log | grep -v VIOLATION | cut -c1-200
  rm -rf "$w"
done
