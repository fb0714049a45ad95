#!/bin/bash
# tryseed.sh ID...: demo on the unchanged tree must pass, with the patch it must fail; then the property's quick check is run on the patched tree.
cd /repo || exit 2
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -n "$(git status --porcelain)" ] && { echo "/repo is dirty"; exit 2; }
  if [ -z "$NODEMO" ]; then
    bash $d/demo.sh > /tmp/demo0.log 2>&1; r0=$?
    git apply $d/patch.diff || exit 2
    bash /opt/vp/build.sh > /tmp/build1.log 2>&1 || { echo "$id: BUILD FAILS"; git checkout -q -- .; continue; }
    bash $d/demo.sh > /tmp/demo1.log 2>&1; r1=$?
  else git apply $d/patch.diff || exit 2; fi
  ( cd /verif && timeout 900 python3 dst/check.py $prop ) > /tmp/chk.log 2>&1; r2=$?
  git checkout -q -- .
  echo "$id: demo clean=$r0 (0) patched=$r1 (!0); check $prop rc=$r2 (1): $(grep -A1 "^$prop: [a-z]" /tmp/chk.log | head -2 | tr '\n' ' ' | cut -c1-300) $(grep -o '^\[.*held.*' /tmp/chk.log)"
done
[ -z "$NODEMO" ] && bash /opt/vp/build.sh > /tmp/build1.log 2>&1
