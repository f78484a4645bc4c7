#!/bin/bash
# seedtest.sh ID...: confirm planted bugs in a scratch copy of /repo: the
# patch applies, builds, passes the stable tests, and the demonstration
# tells the two trees apart.  Prints one line per bug.
PY=/opt/pvenv/bin/python
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
for id in "$@"; do
  d=$(mktemp -d /tmp/seedXXXXXX)
  cp -a /repo "$d/repo"; s=${SEEDS:-/verif/seeded}/$id
  ( cd "$d/repo" && git checkout -q -- . && timeout 300 bash "$s/demo.sh" >"$d/o1" 2>&1 ); base=$?
  ( cd "$d/repo" && git apply "$s/patch.diff" ) || { echo "$id: patch does not apply"; /bin/rm -rf "$d"; continue; }
  ( cd "$d/repo" && timeout 300 bash "$s/demo.sh" >"$d/o2" 2>&1 ); bug=$?
  t=skipped
  if [ -z "$NOTESTS" ]; then
    ( cd "$d/repo" && SEED=1234 $PY -m pytest runlmc -q -p no:cacheprovider -n ${NP:-8} --dist worksteal --timeout=700 \
      --tb=no --disable-warnings -o junit_family=xunit2 --junitxml="$d/j.xml" >"$d/t.log" 2>&1
      python3 /opt/vp/results.py "$d/t.json" "junit:$d/j.xml" >/dev/null )
    t=$(python3 -c "
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('$d/t.json'))['passed'])
print('ok' if s<=p else 'BROKEN '+str(sorted(s-p))[:300])")
  fi
  ok=BAD; [ $base = 0 ] && [ $bug != 0 ] && ok=ok
  echo "$id: demo base=$base bug=$bug $ok; tests $t"
  [ $ok = BAD ] && tail -n 5 "$d/o1" "$d/o2"
  /bin/rm -rf "$d"
done
