#!/bin/bash
# usage: tryseed.sh ID...   planted bugs: demo on clean tree, demo with patch, test suite, checks
for id in "$@"; do
  D=/verif/seeded/$id
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  cd /repo || exit 1
  git diff --quiet || { echo "dirty /repo"; exit 1; }
  bash $D/demo.sh >/tmp/w/demo0.log 2>&1; a=$?
  git apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $D/demo.sh >/tmp/w/demo1.log 2>&1; b=$?
  if [ -z "$NOTEST" ]; then t=$(bash /tmp/w/t.sh); fi
  /opt/venv/bin/python /verif/run_check.py $P --tier quick >/tmp/w/check.log 2>&1; c=$?
  v=$(grep -c "^VIOLATION property=$P" /tmp/w/check.log)
  git checkout -q -- .
  echo "$id ($P): demo clean=$a patched=$b; tests: $t; check exit=$c violations=$v"
done
