#!/usr/bin/env python3
"""check.py ID [quick|thorough]: builds the driver of check ID from /repo's working tree, runs it,
compares what it reports with KNOWN_FINDINGS.txt, writes evidence/ID.json and prints the verdict."""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build
from checks import CHECKS

def known_findings():
    k = {}
    p = os.path.join(V, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\{.*?\}|\S+) (.*)", l.rstrip("\n"))
            if m:
                key = m.group(2)
                if key.startswith("{"):
                    key = key[1:-1]
                k.setdefault(m.group(1), {})[key] = m.group(3)
    return k

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    cfg = CHECKS[pid]
    ev = os.path.join(V, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    for f in os.listdir(os.path.join(ev, "replay")):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(ev, "replay", f))
    scratch = tempfile.mkdtemp(prefix="gkv-" + pid + "-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    counters, texts, samples, viol, capped = {}, {}, [], [], False
    try:
        for part in cfg["parts"]:
            exe = part["build"](build)
            out = os.path.join(scratch, "out.json")
            budget = part.get("budget", {"quick": 420, "thorough": 5400})[tier]
            env = dict(os.environ)
            env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:handle_segv=1:allocator_may_return_null=1"
            env["GKV_SCRATCH"] = scratch
            env["GKV_REPO"] = build.REPO
            p = subprocess.run([exe, part.get("name", pid), "--tier", tier, "--out", out, "--jobs", str(os.cpu_count() or 8),
                                "--budget", str(budget), "--scratch", scratch], env=env, cwd=scratch, stdin=subprocess.DEVNULL)
            if p.returncode != 0:
                print("CHECK ERROR: driver of %s ended with %d" % (pid, p.returncode))
                return 2
            r = json.load(open(out))
            capped = capped or r["capped"]
            for k, v in r["counters"].items():
                counters[k] = max(counters.get(k, 0), v) if k.startswith("max:") else counters.get(k, 0) + v
            for k, v in r["texts"].items():
                texts[k] = (texts[k] + "; " + v) if k in texts and texts[k] != v else v
            samples += r["samples"][:4]
            viol += r["violations"]
            os.unlink(out)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    kf = known_findings().get(pid, {})
    new, seen = [], set()
    for v in viol:
        if v["key"] in kf:
            if v["key"] not in seen:
                seen.add(v["key"])
                print("KNOWN-FINDING: property=%s %s" % (pid, kf[v["key"]]))
        else:
            new.append(v)
    cov = {}
    level = cfg["level"]
    if level in ("exploration", "fault_enumeration"):
        cov["evaluations"] = counters.pop("evaluations", counters.pop("runs", 0))
        cov["distinct_nontrivial"] = counters.pop("distinct_nontrivial", 0)
        cov["rule"] = cfg["rule"]
    else:
        for k in ("states", "transitions", "traces_validated_against_impl"):
            cov[k] = counters.pop(k, 0)
        cov["explanation"] = cfg["rule"]
    cov["samples"] = samples[:12] or ["none"]
    cov["exhaustive"] = not capped
    for k, v in texts.items():
        cov["bound_" + k] = v
    cov["counters"] = counters
    json.dump({"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
               "coverage": cov, "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
               "violations": len(new)}, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    uniq = {}
    for v in new:
        uniq.setdefault(v["key"], v)
    for i, v in enumerate(list(uniq.values())[:10]):
        rp = os.path.join(ev, "replay", "%s-%d.json" % (pid, i + 1))
        json.dump({"property": pid, "key": v["key"], "what": v["what"], "args": v["args"], "detail": v["detail"],
                   "rerun": cfg.get("rerun", "<driver printed by build.py> run 8333 ARGS (gkc's main with the virtual clock), or gkc ARGS")}, open(rp, "w"), indent=1)
        print("  " + v["what"][:600])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    n = cov.get("evaluations", cov.get("states", 0))
    print("%s %s: %d %s%s, %d violation(s), %.1f s" % (pid, tier, n, "evaluations" if "evaluations" in cov else "states",
          "" if not capped else " (stopped at the time budget)", len(uniq), time.time() - t0))
    return 1 if new else 0

if __name__ == "__main__":
    sys.exit(main())
