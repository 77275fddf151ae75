#!/bin/bash
# run the check of its property against every planted bug (in a copy of /repo)
cd /verif
for d in seeded/${1:-*}/; do
  id=$(basename "$d"); p=$(python3 -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")
  rm -rf /tmp/seedrepo; cp -a /repo /tmp/seedrepo
  git -C /tmp/seedrepo apply "/verif/$d/patch.diff" || { echo "$id does not apply"; continue; }
  VX_REPO=/tmp/seedrepo timeout 900 python3-vt vx/run.py "$p" > /tmp/seed.out 2>&1; r=$?
  echo "$id exit $r $(grep -m1 VIOLATION /tmp/seed.out)"
done
rm -rf /tmp/seedrepo
