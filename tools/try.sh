#!/bin/bash
# try.sh <seeded id> [property] : the property's quick check against the planted change, in the scratch tree /tmp/wr
S=/verif/seeded/$1; P=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
cd /tmp/wr && git checkout -q -- . && { git checkout -q --detach $(git -C /repo rev-parse HEAD) 2>/dev/null || { git fetch -q /repo HEAD; git checkout -q --detach FETCH_HEAD; }; }
git apply $S/patch.diff || exit 1
cd /verif && SIM_REPO=/tmp/wr SIM_BUILD=/tmp/simwr timeout 900 python3 checks/run.py $P --tier quick --seed ${SEED:-1} | tail -5
cd /tmp/wr && git checkout -q -- .
