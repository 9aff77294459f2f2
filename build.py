#!/usr/bin/env python3
"""Builds the check drivers from /repo's working tree. Objects are cached under /verif/build by the
hash of everything that goes into them, so a change in /repo always leads to a rebuild."""
import hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GKV_REPO", "/repo")
B = os.path.join(V, "build")

VARIANTS = {  # name: (compiler flags for gkc, link flags)
    "fast": (["-O2", "-w", "-DGKC_VERIF_SMALL"], []),
    "stock": (["-O3", "-w"], []),
    "asan": (["-O1", "-g", "-w", "-DGKC_VERIF_SMALL", "-fsanitize=address", "-fno-omit-frame-pointer"],
             ["-fsanitize=address"]),
}

def sh(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]

def rd(p):
    with open(p, "rb") as f:
        return f.read()

def sources():
    txt = rd(os.path.join(REPO, "compile.sh")).decode()
    txt = "\n".join(l for l in txt.split("\n") if not l.startswith("#"))
    return sorted(set(re.findall(r"[A-Za-z0-9_]+/[A-Za-z0-9_.]+\.c", txt)))

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), p.stdout.decode(errors="replace")[-4000:]))
        sys.exit(2)

def install(tmp, dst):
    os.replace(tmp, dst)

def compile_c(src, key, flags, cc="gcc"):
    out = os.path.join(B, "obj", key + ".o")
    if not os.path.exists(out):
        tmp = out + ".%d.%s" % (os.getpid(), os.path.basename(src).replace(".", "_"))
        run([cc] + flags + ["-c", "-o", tmp, src])
        install(tmp, out)
    return out

def repo_objects(variant, extra=None, skip=()):
    """extra: {source path: [flags]} added for single files"""
    extra = extra or {}
    srcs = [s for s in sources() if s not in skip]
    deps = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in (".git", "_build", "Examples", "Test", "Doc")]
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), REPO)
            if (f.endswith(".h") or f.endswith(".c")) and p not in srcs:
                deps.append(p)
    dep = sh(*[p + "\0" + sh(rd(os.path.join(REPO, p))) for p in sorted(deps)])
    flags = VARIANTS[variant][0]
    jobs = []
    for s in srcs:
        fl = list(flags) + extra.get(s, [])
        if s == "Main/gkc.c":
            fl.append("-Dmain=gkc_orig_main")
        key = sh("c", s, rd(os.path.join(REPO, s)), dep, " ".join(fl), REPO)
        jobs.append((os.path.join(REPO, s), key, fl))
    os.makedirs(os.path.join(B, "obj"), exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda j: compile_c(*j), jobs))

def driver(name, variant, srcs, extra=None, skip=(), cxxflags=(), ldflags=()):
    """name: output; srcs: C++/C files under /verif/src"""
    objs = repo_objects(variant, extra, skip)
    hdr = sh(*[rd(os.path.join(V, "src", f)) for f in sorted(os.listdir(os.path.join(V, "src"))) if f.endswith((".hpp", ".h"))])
    rh = sh(*[rd(os.path.join(REPO, d, f)) for d in ("Db", "Reasoner", "Parser", "Builtparser", "Printer", "cjson")
              for f in sorted(os.listdir(os.path.join(REPO, d))) if f.endswith(".h")], rd(os.path.join(REPO, "config.h")))
    jobs = []
    san = [f for f in VARIANTS[variant][0] if f.startswith("-fsanitize")]
    for s in srcs:
        p = os.path.join(V, "src", s)
        fl = ["-O2", "-g1", "-w", "-I", REPO, "-I", os.path.join(V, "src")] + san + list(cxxflags)
        if s.endswith(".cpp"):
            fl = ["-std=c++20"] + fl
        if "-DGKC_VERIF_SMALL" in VARIANTS[variant][0]:
            fl.append("-DGKC_VERIF_SMALL")
        key = sh("d", s, rd(p), hdr, rh, " ".join(fl))
        jobs.append((p, key, fl, "g++" if s.endswith(".cpp") else "gcc"))
    with ThreadPoolExecutor(8) as ex:
        dobjs = list(ex.map(lambda j: compile_c(*j), jobs))
    key = sh("l", name, variant, " ".join(objs + dobjs), " ".join(ldflags))
    out = os.path.join(B, "%s-%s-%s" % (name, variant, key[:16]))
    if not os.path.exists(out):
        for f in os.listdir(B):  # older builds of the same driver
            if re.fullmatch(re.escape("%s-%s-" % (name, variant)) + "[0-9a-f]{16}", f):
                try: os.unlink(os.path.join(B, f))
                except OSError: pass
        tmp = out + ".%d" % os.getpid()
        run(["g++"] + VARIANTS[variant][1] + list(ldflags) + ["-Wl,--wrap=clock", "-o", tmp] + dobjs + objs + ["-lm", "-lpthread"])
        install(tmp, out)
    return out

def with_config(tag, subst, f):
    """f() with a copy of /repo's sources whose config.h has other settings: subst = [(file, pattern, replacement)]"""
    global REPO
    dst = os.path.join(B, "src-" + tag)
    keep = set()
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in (".git", "_build", "Examples", "Doc")]
        for n in fs:
            if not n.endswith((".c", ".h", ".sh")):
                continue
            p = os.path.join(d, n)
            r = os.path.relpath(p, REPO)
            data = rd(p)
            for f_, a, b in subst:
                if f_ == r:
                    data = re.sub(a.encode(), b.encode(), data)
            keep.add(r)
            q = os.path.join(dst, r)
            if not os.path.exists(q) or rd(q) != data:
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(q + ".%d" % os.getpid(), "wb") as o:
                    o.write(data)
                os.replace(q + ".%d" % os.getpid(), q)
    for d, ds, fs in os.walk(dst):
        for n in fs:
            if os.path.relpath(os.path.join(d, n), dst) not in keep:
                os.unlink(os.path.join(d, n))
    old, REPO = REPO, dst
    try:
        return f()
    finally:
        REPO = old

if __name__ == "__main__":
    srcs = ["main.cpp", "wrapclock.c"] + sys.argv[3:]
    print(driver(sys.argv[1], sys.argv[2], srcs))
