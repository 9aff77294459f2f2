#!/usr/bin/env python3
"""seedtest.py [--notests] [--tier T] ID...: tries planted bugs in private copies (mount namespace), prints what counts and what is caught."""
import json, os, shutil, subprocess, sys
V = "/verif"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

INNER = r'''
set -u
mount --bind "$W/repo" /repo; mount --bind "$W/verif" /verif
cd /repo
bash /opt/vp/build.sh >"$W/build0.log" 2>&1 || echo "BUILD0 FAIL"
(timeout 300 bash "$W/demo/demo.sh" >"$W/demo0.log" 2>&1; echo "demo0 $?")
git -C /repo apply "$W/patch.diff" || { echo "APPLY FAIL"; exit 1; }
bash /opt/vp/build.sh >"$W/build1.log" 2>&1 || { echo "BUILD1 FAIL"; tail -5 "$W/build1.log"; }
if [ "$TESTS" = 1 ]; then bash /opt/vp/test.sh "$W/o.json" >"$W/test.log" 2>&1; fi
(timeout 300 bash "$W/demo/demo.sh" >"$W/demo1.log" 2>&1; echo "demo1 $?")
cd /verif
for P in $PROPS; do
VERIF_SEED=1 VERIF_TIER=$TIER timeout 900 python3 /verif/check.py $P $TIER >"$W/check-$P.log" 2>&1; echo "check $P $?"
done
'''

def one(sid, tests, tier, props=None):
    sd = os.path.join(V, "seeded", sid)
    meta = json.load(open(os.path.join(sd, "meta.json")))
    W = "/tmp/seed-" + sid
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W + "/demo")
    subprocess.check_call(["cp", "-a", "/repo", W + "/repo"])
    os.makedirs(W + "/verif")
    for f in os.listdir(V):
        if f not in (".git", "seeded", "evidence"):
            subprocess.check_call(["cp", "-a", os.path.join(V, f), W + "/verif/"])
    for f in os.listdir(sd):
        if f == "meta.json": continue
        if f == "patch.diff": shutil.copy(os.path.join(sd, f), W)
        else: shutil.copy(os.path.join(sd, f), W + "/demo")
    env = dict(os.environ, W=W, TESTS="1" if tests else "0", TIER=tier, PROPS=" ".join(props or [meta["property"]]))
    p = subprocess.run(["unshare", "-m", "bash", "-c", INNER], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = p.stdout.decode(errors="replace").strip().replace("\n", "; ")
    res = ""
    if tests:
        try:
            o = json.load(open(W + "/o.json"))
            ps = set(o.get("passed", []))
            bad = STABLE - ps
            res = "tests ok" if not bad else "tests BROKEN %d: %s" % (len(bad), sorted(bad)[:4])
        except Exception as e:
            res = "tests ? %s" % e
    log = ""
    for P in (props or [meta["property"]]):
        try:
            l = open(W + "/check-%s.log" % P).read().strip().split("\n")
            log += "\n    " + P + ": " + " || ".join(x[:160] for x in l[-3:])
        except OSError: pass
    print("%s [%s]: %s; %s%s" % (sid, meta["property"], out, res, log), flush=True)
    if "--keep" not in sys.argv:
        shutil.rmtree(W, ignore_errors=True)

a = sys.argv[1:]
tests = "--notests" not in a
tier = "thorough" if "--thorough" in a else "quick"
props = [x[2:] for x in a if x.startswith("P=")] or None
ids = [x for x in a if not x.startswith("-") and not x.startswith("P=")] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    one(i, tests, tier, props)
