#!/bin/bash
# tools/trybug.sh ID...  : confirm planted changes (tests pass, demo tells) and run the check on them.
# Works on a scratch copy of /repo; NOTEST=1 skips the test suite.
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  S=$V/seeded/$id; W=/tmp/bug_$id; prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  rm -rf "/tmp/bug_$id"; cp -a /repo "$W"
  (cd /repo && timeout 300 bash "$S/demo.sh" >/tmp/demo_clean_$id.log 2>&1); c=$?
  if ! git -C "$W" apply "$S/patch.diff"; then echo "$id PATCH DOES NOT APPLY"; rm -rf "/tmp/bug_$id"; continue; fi
  (cd "$W" && timeout 300 bash "$S/demo.sh" >/tmp/demo_bug_$id.log 2>&1); b=$?
  t=skipped
  if [ -z "$NOTEST" ]; then
    (cd "$W" && PYTHONPATH=$W PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 timeout 600 /opt/venv/bin/python -m pytest -q -n 8 -p no:cacheprovider --timeout=300 --disable-warnings --continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/junit_$id.xml >/tmp/pytest_$id.log 2>&1)
    /opt/venv/bin/python /opt/vp/results.py /tmp/res_$id.json junit:/tmp/junit_$id.xml >/dev/null 2>&1
    t=$(python3 - <<P
import json
t=json.load(open('/tmp/res_$id.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print('missing', sorted(set(b['stable'])-set(t['passed']))[:6])
P
)
  fi
  k=$( cd "$V" && MARXS_REPO=$W timeout 900 ./check.sh $prop 2>&1 | tee /tmp/check_$id.log | grep -c "^VIOLATION property=$prop ")
  echo "$id ($prop): demo clean=$c bug=$b; tests $t; VIOLATION lines $k"
  rm -rf "/tmp/bug_$id"
done
