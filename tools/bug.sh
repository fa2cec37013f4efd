#!/bin/bash
# bug.sh new            : fresh scratch copy of /repo in /tmp/wt
# bug.sh save ID        : take the diff of /tmp/wt as seeded/ID/patch.diff
# bug.sh try ID [notest]: demo on clean and patched copy, stable tests, then the check of the property
V=/verif
fresh() { rm -rf /tmp/wt; cp -a /repo /tmp/wt; find /tmp/wt -name __pycache__ -prune -exec rm -rf {} +; }
case $1 in
new) fresh;;
save) mkdir -p $V/seeded/$2; git -C /tmp/wt diff > $V/seeded/$2/patch.diff; wc -l $V/seeded/$2/patch.diff;;
try) D=$V/seeded/$2
  fresh
  cp -r $D /tmp/bugdemo.$2; rm -f /tmp/bugdemo.$2/patch.diff /tmp/bugdemo.$2/meta.json
  (cd /tmp/wt; bash /tmp/bugdemo.$2/demo.sh > /tmp/demo.clean.log 2>&1); a=$?
  git -C /tmp/wt apply $D/patch.diff || exit 3
  (cd /tmp/wt; bash /tmp/bugdemo.$2/demo.sh > /tmp/demo.bug.log 2>&1); b=$?
  rm -rf /tmp/bugdemo.$2
  echo "$2 demo clean=$a patched=$b"; [ $a = 0 ] || tail -5 /tmp/demo.clean.log; [ $b != 0 ] || tail -5 /tmp/demo.bug.log
  if [ "$3" != notest ]; then
    (cd /tmp/wt/testing; PYTHONPATH=/tmp/wt timeout 900 /opt/venv/bin/python -m pytest -q -x -n0 . > /tmp/bugtest.log 2>&1; tail -3 /tmp/bugtest.log)
  fi
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  cd $V; VERIF_REPO=/tmp/wt timeout 900 ./run.sh $P quick | tail -8 | cut -c1-200; echo "rc=${PIPESTATUS[0]}";;
esac
