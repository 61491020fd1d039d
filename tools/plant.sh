#!/bin/bash
# tools/plant.sh ID... : confirm planted bugs (builds, tests pass, demo fails only with it) and run their check.
# Leaves /repo as it was.
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1
  if [ -z "$NODEMO" ]; then timeout 300 bash $d/demo.sh >/tmp/plant.clean 2>&1; c=$?; else c=-; fi
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/plant.build 2>&1 || echo "$id: BUILD FAILED"
  t=-; b=-
  if [ -z "$NODEMO" ]; then
    bash /opt/vp/test.sh /tmp/plant.test >/dev/null 2>&1; t=$(python3 -c "import json;print(len(json.load(open('/tmp/plant.test'))['passed']))")
    timeout 300 bash $d/demo.sh >/tmp/plant.bug 2>&1; b=$?
  fi
  r=
  for q in ${CHECKS:-$p}; do
    o=$(cd /verif; SIM_EVIDENCE=/tmp/plant.ev timeout 900 python3 check.py $q 2>&1); e=$?
    r="$r $q:$e[$(echo "$o" | grep -m1 -o 'class=[a-z-]*')$(echo "$o" | grep -qm1 '^VIOLATION' && echo ,V)]"
  done
  git checkout -q -- .
  ok=OK; [ "$c" = 0 ] && [ "$b" != 0 ] && [ "$t" = 15 ] || ok=INVALID
  [ -n "$NODEMO" ] && ok=
  echo "$id prop=$p clean_demo=$c bug_demo=$b tests=$t $ok checks:$r"
done
