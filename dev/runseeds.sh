#!/bin/bash
# runseeds.sh [id...]: applies each seeded change to a scratch copy and runs the property's check there
cd "$(dirname "$0")/.."
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
one() {
  set +e
  i=$1; W=$(mktemp -d /tmp/rs.XXXXXX); cp -a /repo/src $W/src; ln -s /repo/third-party $W/third-party; patch -s -p1 -d $W < /verif/seeded/$i/patch.diff
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  FSTALIGN_REPO=$W FSTALIGN_EVIDENCE=$W/ev timeout 900 python3 engine/check.py $p > $W/out 2>&1; rc=$?
  echo "$i $p rc=$rc $(grep -m1 -v VIOLATION $W/out | cut -c1-110)"; rm -rf $W
}
export -f one
printf '%s\n' $ids | xargs -P 6 -I{} bash -c 'one {}'
