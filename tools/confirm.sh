#!/bin/bash
# tools/confirm.sh ID... : in /repo itself: demo on the clean tree, then apply, build, stable tests, demo, undo, rebuild
cd /repo
git diff --quiet || { echo "dirty /repo"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id
  bash $d/demo.sh >/dev/null 2>&1; c=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh > /tmp/confirm.$id.log 2>&1; b=$?
  t=-; m=-
  if [ $b = 0 ]; then
    t=$(bash /opt/vp/test.sh /tmp/confirm.$id.json 2>&1 | tail -1)
    bash $d/demo.sh > /tmp/confirm.$id.demo 2>&1; m=$?
  fi
  git checkout -q -- .
  echo "$id: clean demo rc=$c build=$b tests=$t patched demo rc=$m"
done
bash /opt/vp/build.sh > /dev/null 2>&1
