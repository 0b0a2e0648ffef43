#!/bin/bash
# try_seeds.sh [ID...]: run each seeded change's check against a scratch copy of /repo with the patch applied
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  W=/tmp/tryseed.$$; rm -rf $W; cp -a /repo $W; git -C $W apply /verif/seeded/$d/patch.diff || echo "PATCH FAILS $d"
  out=$(PYDV_REPO=$W VERIF_SEED=1 python3-vt checks/run.py $p 2>&1); rc=$?
  echo "== $d $p rc=$rc"; echo "$out" | grep -v "^$" | cut -c1-220 | tail -6
  rm -rf $W
done
