#!/bin/bash
# seed.sh new ID   : from the uncommitted edit in /repo: write patch.diff, copy the demo library, undo the edit
# seed.sh test ID  : confirm a seeded change: builds, stable tests pass, demo 0 / nonzero, and run its check
set -u
V=/verif/seeded/$2
case $1 in
new)
  mkdir -p $V
  git -C /repo diff > $V/patch.diff
  git -C /repo checkout -- .
  cp /verif/tools/demo/demo.sh $V/
  for f in wire records recorder cluster groups util; do cp /verif/harness/$f.go $V/lib_$f.go; done
  ;;
test)
  P=$(python3 -c "import json;print(json.load(open('$V/meta.json'))['property'])")
  cd /repo && [ -z "$(git status --porcelain)" ] || { echo repo dirty; exit 2; }
  D=$(mktemp -d); cp $V/*.go $V/demo.sh $D/
  (cd /repo; bash $D/demo.sh > $D/o0 2>&1); a=$?
  git -C /repo apply $V/patch.diff || { echo "patch does not apply"; exit 2; }
  bash /tmp/cmp.sh > $D/t 2>&1
  (cd /repo; bash $D/demo.sh > $D/o1 2>&1); b=$?
  c="-"
  if [ "${3:-}" != nocheck ]; then (cd /verif; ./check $P > $D/c 2>&1); c=$?; fi
  git -C /repo checkout -- .
  echo "$2 $P demo clean=$a patched=$b check=$c tests: $(tail -1 $D/t)"
  [ $a = 0 ] || tail -5 $D/o0
  [ $b != 0 ] || tail -5 $D/o1
  [ $b != 3 ] || tail -5 $D/o1
  [ "$c" = 1 ] || [ "$c" = - ] || tail -4 $D/c
  rm -rf "$D"
  ;;
esac
