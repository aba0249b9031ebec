#!/bin/bash
# plant.sh ID...: apply each planted bug, rebuild, run the tests, the demo and the check, then revert
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  [ -n "$(git -C /repo status --porcelain --untracked-files=no)" ] && { echo "repo not clean"; exit 2; }
  git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  b=$(bash /opt/vp/build.sh 2>&1) && br=ok || br=FAIL
  t=$(bash /opt/vp/test.sh /tmp/plant.$$.json 2>&1 | tail -1)
  rm -f /tmp/plant.$$.json
  (cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/plant.$$.out 2>&1); de=$?
  c=$(cd /verif && timeout 900 python3-vt checks/$p.py 2>&1); ce=$?
  git -C /repo checkout -- .
  (cd /repo && timeout 300 bash "$d/demo.sh" >/dev/null 2>&1); d0=$?
  r=MISSED; [ $ce = 1 ] && r=caught; [ $ce -gt 1 ] && r=ERROR
  echo "$id [$p]: build=$br tests='$t' demo(bug)=$de demo(clean)=$d0 check=$ce $r"
  [ $ce != 1 ] && echo "$c" | tail -4 | cut -c1-300
  [ "$V" ] && echo "$c" | head -4 | cut -c1-500
  rm -f /tmp/plant.$$.out
done
bash /opt/vp/build.sh >/dev/null 2>&1
exit 0
