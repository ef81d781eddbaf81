#!/bin/bash
# seedtest.sh <id>...: in a scratch worktree, demo on the clean tree (must pass), with the patch (must fail), and this property's check (must report)
w=${SEED_TREE:-/tmp/t/w}
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C $w checkout -q -- . ; t=$(mktemp -d); cp -r $d/. $t/
  (cd $w && bash $t/demo.sh >$t/log 2>&1); a=$?
  git -C $w apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd $w && bash $t/demo.sh >>$t/log 2>&1); b=$?
  VERIF_REPO=$w python3 /verif/check.py $p >$t/chk 2>&1; c=$?
  git -C $w checkout -q -- .
  echo "$id $p: demo clean=$a patched=$b check=$c $(grep -c '^VIOLATION' $t/chk) $(grep '^  ' $t/chk | head -2 | cut -c1-220)"
  if [ $a != 0 ] || [ $b = 0 ]; then tail -5 $t/log; fi; if [ $c != 1 ]; then tail -4 $t/chk; fi
  rm -rf "$t"
done
