#!/bin/bash
# seedrun.sh ID...: build, tests, demo and the property's check with each planted bug (applied to /repo and undone)
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply --check $d/patch.diff || { echo "$id: does not apply"; continue; }
  git -C /repo apply $d/patch.diff
  bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || echo "$id: BUILD FAILS"
  bash /opt/vp/test.sh /tmp/st.json >/dev/null 2>&1; t=$(python3 -c "import json;o=json.load(open('/tmp/st.json'));print(len(o['passed']),len(o['failed']))")
  if [ -z "$NODEMO" ]; then (cd /repo; timeout 300 bash $d/demo.sh >/tmp/sd.out 2>&1); dr=$?; else dr=-; fi
  VP_SHOW=1 timeout 900 python3 check.py $p quick >/tmp/sc.out 2>&1; cr=$?
  echo "$id ($p): tests $t, demo exit $dr, check exit $cr: $(grep -v VIOLATION /tmp/sc.out | head -1 | cut -c1-200)"
  git -C /repo apply -R $d/patch.diff
done
git -C /repo status --short | grep -v '^??' | head
