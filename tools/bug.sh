#!/bin/bash
# tools/bug.sh new ID PROPERTY   (edits made in /tmp/bugrepo become the patch;
#                                 demo.py, needs.txt, breaks.txt come from stdin-made files in /tmp/bug)
# tools/bug.sh try ID            demo on both trees, stable tests, checks of its property
set -u
V=/verif
case $1 in
fresh)
  rm -rf /tmp/bugrepo; cp -a /repo /tmp/bugrepo;;
new)
  id=$2; d=$V/seeded/$id; mkdir -p $d/lib
  git -C /tmp/bugrepo diff > $d/patch.diff
  cp $V/sim/cla_stub.py $V/sim/oracle.py $V/sim/workload.py $V/sim/layouts.py $d/lib/; cp $V/tools/demo_run.py $d/lib/run.py; touch $d/lib/__init__.py
  cp /tmp/bug/demo.py $d/demo.py
  printf '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 PYTHONPATH=$PWD\nd=$(cd "$(dirname "$0")" && pwd)\nexec /opt/venv/bin/python -B "$d/demo.py"\n' > $d/demo.sh
  chmod +x $d/demo.sh
  python3 - "$d" "$3" <<'PY'
import json, sys
d, p = sys.argv[1:]
json.dump(dict(property=p, needs=open('/tmp/bug/needs.txt').read().strip(),
  what_it_breaks=open('/tmp/bug/breaks.txt').read().strip()), open(d+'/meta.json','w'), indent=1)
PY
  ;;
try)
  id=$2; d=$V/seeded/$id
  p=${3:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  t=$(mktemp -d /tmp/bugtry.XXXX); cp -a /repo $t/clean; cp -a /repo $t/bug
  git -C $t/bug apply $d/patch.diff || { echo "$id: DOES NOT APPLY"; rm -rf $t; exit 1; }
  (cd $t/clean && timeout 300 $d/demo.sh >$t/o1 2>&1); a=$?
  (cd $t/bug && timeout 300 $d/demo.sh >$t/o2 2>&1); b=$?
  (cd $t/bug && PYTHONPATH=$t/bug timeout 300 /opt/venv/bin/python -B -m pytest -q -p no:cacheprovider >$t/o3 2>&1); tests=$(tail -1 $t/o3)
  echo "$id: demo clean=$a bug=$b | tests: $tests"
  [ $a -ne 0 ] && tail -5 $t/o1
  [ -n "${SHOW:-}" ] && tail -3 $t/o2
  for q in $p; do
    s=$(date +%s)
    (cd $V && VERIF_REPO=$t/bug timeout 900 ./check $q --tier quick) > $t/o4 2>&1; c=$?
    echo "   $q: exit $c in $(( $(date +%s)-s )) s: $(grep -m1 '^violation' $t/o4 | cut -c1-200)"
    [ $c -eq 2 ] && tail -5 $t/o4
  done
  rm -rf $t;;
esac
