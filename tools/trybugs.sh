#!/bin/bash
# trybugs.sh ID...: applies each seeded bug to /repo, runs demo, tests and the property's check, undoes it.  A development aid.
cd /repo || exit 1
for id in "$@"; do
  d=/verif/seeded/$id
  [ -z "$(git status --porcelain)" ] || { echo "/repo is dirty"; exit 1; }
  pid=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash $d/demo.sh >/tmp/demo.$id.log 2>&1; clean=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash $d/demo.sh >>/tmp/demo.$id.log 2>&1; bad=$?
  t="-"
  if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/t.$id.json >/tmp/test.$id.log 2>&1; t=$(tail -1 /tmp/test.$id.log); fi
  MC_BUDGET=${MC_BUDGET:-600} /opt/venv/bin/python /verif/run_check.py ${CHECK:-$pid} >/tmp/chk.$id.log 2>&1; c=$?
  git checkout -q -- .
  echo "$id $pid: demo clean=$clean bad=$bad; tests: $t; check exit=$c $(grep -B1 VIOLATION /tmp/chk.$id.log | head -1 | cut -c1-260)"
done
