#!/bin/bash
# seed.sh ID [check...]: try the planted change seeded/ID in the scratch copy /tmp/sc/repo:
# builds, passes the unit tests, demo passes without and fails with it, and which checks catch it.
id=$1; shift
d=/verif/seeded/$id
cd /tmp/sc/repo || exit 1
git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
bash /tmp/sc/build.sh || exit 1
bash $d/demo.sh > /tmp/sc/demo0.log 2>&1; echo "demo without: $?"
git apply $d/patch.diff || exit 1
if bash /tmp/sc/build.sh; then
  (cd _build/test && timeout 120 ./wsrep-lib_test -- --wsrep-log-file=/dev/null > /tmp/sc/test.log 2>&1; echo "tests: $? $(tail -1 /tmp/sc/test.log)")
  bash $d/demo.sh > /tmp/sc/demo1.log 2>&1; echo "demo with: $?"
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  for c in $p "$@"; do VERIF_REPO=/tmp/sc/repo /usr/bin/time -f "%es" /verif/check $c 2>&1 | grep -v "^ " | tail -4; done
fi
git checkout -q -- .
