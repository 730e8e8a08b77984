#!/bin/bash
# plant.sh ID [ID...]: try planted bugs in /repo (applied, built, tested, demonstrated, checked, undone)
. /opt/vp/env.sh >/dev/null 2>&1
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  if ! cargo build --offline >/tmp/plant.log 2>&1; then echo "$id: does not build"; tail -20 /tmp/plant.log; git checkout -- .; continue; fi
  t=$(bash /opt/vp/test.sh /tmp/plant.json 2>&1 | tail -1)
  bash "$d/demo.sh" >/tmp/plant.demo 2>&1; dr=$?
  cr=skip; out=
  if [ -f /verif/mc/props/$(echo $prop | tr A-Z a-z).py ]; then
    out=$(cd /verif && timeout 900 python3 mc/check.py $prop quick 2>&1 | grep -E "VIOLATION|violations|machinery" | head -2); cr=$(echo "$out" | grep -c "VIOLATION property=$prop ")
  fi
  git checkout -- .
  cargo build --offline >/tmp/plant.log 2>&1
  bash "$d/demo.sh" >/tmp/plant.demo0 2>&1; d0=$?
  echo "$id: property=$prop tests='$t' demo_patched=$dr demo_clean=$d0 caught=$cr"
done
