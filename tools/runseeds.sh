#!/bin/bash
# applies each planted bug (default: all) to a private copy of /repo, runs the check of its property
# (or those named in PROPS) from a private copy of /verif, and says what came of it
# usage: tools/runseeds.sh [seeded/<id>...], or any folder with a patch.diff
if [ -z "$INSIDE" ]; then
  d=$(mktemp -d /tmp/runseeds.XXXXXX)
  mkdir "$d/verif"
  cp -a /repo "$d/repo" && git -C "$d/repo" checkout -q -- . || exit 1
  (cd /verif && tar cf - --exclude=./build/ir-*thorough* --exclude=./.git .) | tar xf - -C "$d/verif" || exit 1
  INSIDE=$d unshare -Ur -m bash -c "mount --bind $d/repo /repo && mount --bind $d/verif /verif && cd /verif && bash tools/runseeds.sh $*"
  rm -rf "$d"
  exit
fi
cd /verif || exit 1
for d in ${@:-seeded/*}; do
  id=$(basename "$d")
  p=${PROPS:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  git -C /repo apply "$(realpath "$d")/patch.diff" || { echo "$id NOAPPLY"; continue; }
  for q in $p; do
    s=$(date +%s); python3 check.py $q > /tmp/seed-$id-$q.log 2>&1; rc=$?
    echo "$id $q rc=$rc $(( $(date +%s) - s ))s $(grep -m1 -E 'VIOLATION|INCONCLUSIVE|ERROR' /tmp/seed-$id-$q.log | cut -c1-160)"
    cp evidence/$q.json /tmp/seed-$id-$q.json 2>/dev/null
  done
  git -C /repo checkout -q -- .
done
