#!/bin/bash
# tools/seedtest.sh ID... : confirm planted changes in a scratch copy of /repo: builds, stable tests pass, demo fails with / passes without,
# and which checks catch them (property's own check unless CHECKS is set). Results on stdout.
W=/tmp/seedwt
mkdir -p $W
if [ ! -d $W/repo ]; then cp -a /repo $W/repo; fi
rsync -a --delete --exclude .git --exclude _build /repo/ $W/repo/ 2>/dev/null || cp -a /repo/. $W/repo/
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd $W/repo
  if ! git -C $W/repo apply --check $d/patch.diff; then echo "$id: patch does not apply"; continue; fi
  git -C $W/repo apply $d/patch.diff
  if [ -z "$NOCHECK" ]; then (cd /verif && timeout 890 ./check $prop --tier quick --noev --repo $W/repo > $W/$id.check 2>&1; echo "$id: check $prop rc=$? $(grep -h VIOLATION $W/$id.check | tail -1) $(tail -1 $W/$id.check | cut -c1-150)"); fi
  git -C $W/repo apply -R $d/patch.diff
done
