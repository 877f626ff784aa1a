#!/bin/bash
# seed.sh ID [nocheck] : confirm the planted bug seeded/ID (applies, builds, tests pass, demo fails with it and passes
# without it) in a scratch worktree and run its property's check against it
ID=$1; S=/verif/seeded/$ID
W=/tmp/seedwt
[ -d $W ] || git -C /repo worktree add --detach $W >/dev/null 2>&1
git -C $W checkout -q --detach $(git -C /repo rev-parse HEAD); git -C $W checkout -q -- .
blt() { (export CC=gcc CXX=g++ CFLAGS= CXXFLAGS= LC_ALL=C; cd $W; cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Release -DENABLE_TESTS=ON -DENABLE_GLCACHE=ON -DENABLE_LRB=OFF -DOPT_SUPPORT_ZSTD_TRACE=ON && ninja -C _build) >/tmp/seedbuild.log 2>&1; }
cp -a $S /tmp/seeddemo.$$; rm -f /tmp/seeddemo.$$/*.diff /tmp/seeddemo.$$/meta.json
blt; (cd $W; bash /tmp/seeddemo.$$/demo.sh >/tmp/seeddemo.log 2>&1); a=$?
git -C $W apply $S/patch.diff || { echo "$ID: DOES NOT APPLY"; exit 1; }
blt || { echo "$ID: DOES NOT BUILD"; tail -20 /tmp/seedbuild.log; git -C $W checkout -q -- .; exit 1; }
(cd $W; bash /tmp/seeddemo.$$/demo.sh >/tmp/seeddemo2.log 2>&1); b=$?
t=$(cd $W/_build && ctest 2>&1 | grep "tests passed")
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
c=skipped
if [ -z "$2" ]; then
c=$(cd /verif; VERIF_REPO=$W VERIF_BUILD=/tmp/seedbuild VERIF_EVIDENCE=/tmp/seedev timeout 900 python3 tools/check.py $p 2>&1 | head -3 | cut -c1-300)
fi
git -C $W checkout -q -- .
rm -rf /tmp/seeddemo.$$
echo "$ID [$p]: demo clean=$a bug=$b ; $t ; check: $c"
