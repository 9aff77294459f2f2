#!/bin/bash
# trypatch.sh SEED PROP [tier]: runs a check against a patched copy (/tmp/wk) of the tree
cd /tmp/wk && git checkout -q -- . && git apply /verif/seeded/$1/patch.diff || exit 1
mkdir -p /tmp/tryv && rsync -a --delete --exclude .git --exclude seeded --exclude evidence /verif/ /tmp/tryv/ 2>/dev/null || cp -a /verif/*.py /verif/src /verif/*.txt /tmp/tryv/
cd /tmp/tryv && GKV_REPO=/tmp/wk timeout 900 python3 check.py $2 ${3:-quick} 2>&1 | tail -${N:-5}
cd /tmp/wk && git checkout -q -- .
