#!/bin/bash
# testseed.sh <id>...: confirms a planted bug and runs the check of its property (and CHECKS="..." others)
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo
  [ -z "$(git status --short)" ] || { echo "repo dirty"; exit 1; }
  bash $d/demo.sh >/tmp/demo.clean 2>&1; c=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $d/demo.sh >/tmp/demo.patched 2>&1; p=$?
  if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); d=json.load(open('/tmp/t.json'))
def names(x,k): return set(x.get(k,[]))
print('passed' if not d.get('failed') else 'FAILED '+str(d.get('failed'))[:200])"); fi
  echo "== $id ($prop): demo clean=$c patched=$p tests=$t"
  for k in ${CHECKS:-$prop}; do /verif/check.py $k quick | grep -v "^note" | cut -c1-200; done
  git checkout -q -- .
  find /repo/src -name __pycache__ -newer $d/patch.diff >/dev/null
done
