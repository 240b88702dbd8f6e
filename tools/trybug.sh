#!/bin/bash
# trybug.sh <id> [nocheck]: demo on clean and patched copies, compile, own check with the patch applied to /repo.
set -u
V=/verif; id=$1; d=$V/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
W=/tmp/bugrepo.$$; mkdir -p $W; cp -a /repo/. $W/; git -C $W checkout -q -- . ; 
X=/tmp/bugdemo.$$; mkdir $X; cp -r $d/. $X/; rm -f $X/*.diff $X/meta.json
(cd $W && timeout 300 $X/demo.sh >/tmp/demo.clean.log 2>&1); a=$?
git -C $W apply $d/patch.diff || { echo "patch does not apply"; exit 1; }
t0=$SECONDS; (cd $W && timeout 300 $X/demo.sh >/tmp/demo.bug.log 2>&1); b=$?
echo "$id: demo clean=$a patched=$b ($((SECONDS-t0)) s) $(tail -1 /tmp/demo.bug.log | cut -c1-150)"
rm -rf $W $X
[ "${2:-}" = nocheck ] && exit 0
git -C /repo apply $d/patch.diff; (cd $V && timeout 900 ./check $prop >/tmp/check.$id.log 2>&1); c=$?; git -C /repo checkout -q -- .
echo "$id: check $prop exit=$c $(grep -a -A1 VIOLATION /tmp/check.$id.log | tail -1 | cut -c1-200)"
