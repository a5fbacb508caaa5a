#!/bin/bash
# seeded.sh [ID...] : run the property's check against every kept planted change, on a scratch copy
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  w=/tmp/w/s$$; rm -rf $w; mkdir -p $w; cp -a /repo/mappyfile $w/; (cd $w && patch -sp1 < /verif/seeded/$d/patch.diff) || echo PATCH FAILS $d
  s=$(date +%s)
  VERIF_REPO=$w VERIF_EVID=$w/ev VERIF_SHOW=2 timeout 900 python3-vt check.py $p > $w/out 2>&1; r=$?
  echo "$d $p exit=$r $(( $(date +%s) - s ))s $(grep -c ^VIOLATION $w/out)"; grep -v ^VIOL $w/out | tail -2 | cut -c1-200
  rm -rf /tmp/w/s$$
done
