#!/bin/bash
# plant.sh <id>: verifies seeded/<id> in the scratch tree /tmp/wr: demo without the patch, with the patch
set -u
S=/verif/seeded/$1; W=/tmp/wr
. /opt/vp/env.sh
cd $W && git checkout -q -- . && git checkout -q --detach $(git -C /repo rev-parse HEAD) 2>/dev/null || { git fetch -q /repo HEAD; git checkout -q --detach FETCH_HEAD; }
D=$(mktemp -d); cp -r $S/. $D; rm -f $D/patch.diff $D/meta.json
python3 waf -j8 >/tmp/plant.log 2>&1 || { echo "build failed"; tail -5 /tmp/plant.log; exit 1; }
env -i PATH=$PATH HOME=$HOME bash $D/demo.sh > /tmp/plant.clean 2>&1; echo "clean: $?"
git apply $S/patch.diff || exit 1
python3 waf -j8 >/tmp/plant.log 2>&1 || { echo "build failed"; grep error /tmp/plant.log | head; git checkout -q -- .; exit 1; }
env -i PATH=$PATH HOME=$HOME bash $D/demo.sh > /tmp/plant.bad 2>&1; echo "patched: $?"
tail -3 /tmp/plant.clean; tail -5 /tmp/plant.bad
git checkout -q -- .
rm -rf "$D"
