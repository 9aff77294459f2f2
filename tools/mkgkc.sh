#!/bin/bash
# mkgkc.sh SEED|base: /tmp/gkc_SEED = wrapper of a stock build of the (patched) tree in /tmp/wk
cd /tmp/wk && git checkout -q -- . && if [ $1 != base ]; then git apply /verif/seeded/$1/patch.diff 2>/dev/null || exit 1; fi
mkdir -p /tmp/tryv; cp -a /verif/*.py /verif/src /tmp/tryv/
exe=$(cd /tmp/tryv && GKV_REPO=/tmp/wk python3 build.py gks_$1 stock) || exit 1
printf '#!/bin/bash\nexec %s run 0 "$@"\n' $exe > /tmp/gkc_$1; chmod +x /tmp/gkc_$1
git checkout -q -- .
