#!/bin/bash
# tryseed.sh ID...: run the property's check against a scratch copy with the change applied
for i in "$@"; do
  d=/verif/seeded/$i; wt=/tmp/try-$i
  rm -rf "/tmp/try-$i"; cp -a /repo "$wt"; (cd "$wt" && git apply "$d/patch.diff")
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /verif && VF_REPO=$wt VF_EVID=/tmp/try-ev-$i ./run ${2:+}$p) > /tmp/try-$i.log 2>&1; rc=$?
  echo "$i $p rc=$rc $(grep -c VIOLATION /tmp/try-$i.log) $(tail -1 /tmp/try-$i.log)"
  rm -rf "/tmp/try-$i"
done
