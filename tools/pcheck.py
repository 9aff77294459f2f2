#!/usr/bin/env python3
"""Reads gkc -print 10 output on stdin; checks that every derived step follows from its cited steps
(over all interpretations with 1 and 2 elements). Exit 0 when all proofs are fine."""
import itertools, re, sys
def toks(s): return re.findall(r"'[^']*'|!=|\$?\w+|[-(),|=.~]", s)
def parse(s):
    if s.strip().rstrip(".") == "false": return []
    t = toks(s); i = 0; cl = []
    def term():
        nonlocal i
        n = t[i]; i += 1; a = []
        if i < len(t) and t[i] == "(":
            i += 1
            while True:
                a.append(term())
                i += 1
                if t[i-1] == ")": break
        if n == "$pr": return a[0]
        return (n, tuple(a))
    while True:
        pos = True
        while t[i] in "-~": pos = not pos; i += 1
        l = term()
        if i < len(t) and t[i] in ("=", "!="):
            if t[i] == "!=": pos = not pos
            i += 1
            l = ("=", (l, term()))
        cl.append((pos, l))
        if i < len(t) and t[i] == "|": i += 1; continue
        return cl
def isvar(x): return not x[1] and re.match(r"[A-Z]", x[0])
proofs = []
for l in sys.stdin.read().split("\n"):
    if l.startswith("proof:"): proofs.append([])
    m = re.match(r" (\d+): \[(\w+)([^\]]*)\]\s*(.*)$", l)
    if m and proofs: proofs[-1].append((int(m[1]), m[2], [int(x) for x in re.findall(r"\d+", re.sub(r"\.\d+(\.\d+)*", "", re.sub(r",[^,]*?(\d+)[^,]*", r",\1", m[3])))], m[4]))
if not proofs: print("no proof"); sys.exit(3)
for p in proofs:
    P = {n: parse(c) for n, r, ps, c in p}
    sig = {}
    def coll(x, pred):
        if x[0] == "=":
            for a in x[1]: coll(a, False)
            return
        if isvar(x): return
        sig[(x[0], len(x[1]))] = pred
        for a in x[1]: coll(a, False)
    for c in P.values():
        for _, l in c: coll(l, True)
    ss = list(sig)
    for d in (1, 2):
        spaces = [list(itertools.product(range(2 if sig[s] else d), repeat=d ** s[1])) for s in ss]
        for it in itertools.product(*spaces):
            I = dict(zip(ss, it))
            def ev(x, e):
                if isvar(x): return e[x[0]]
                k = 0
                for a in x[1]: k = k * d + ev(a, e)
                return I[(x[0], len(x[1]))][k]
            def true(c):
                vs = set()
                def cv(x):
                    if isvar(x): vs.add(x[0])
                    for a in x[1]: cv(a)
                for _, l in c: cv(l)
                vs = sorted(vs)
                for asg in itertools.product(range(d), repeat=len(vs)):
                    e = dict(zip(vs, asg))
                    if not any((ev(l[1][0], e) == ev(l[1][1], e) if l[0] == "=" else ev(l, e) == 1) == pos for pos, l in c): return False
                return True
            T = {n: true(c) for n, c in P.items()}
            for n, r, ps, c in p:
                if r != "in" and all(T[q] for q in ps) and not T[n]:
                    print("step %d does not follow: %s" % (n, c)); sys.exit(1)
print("ok", sum(len(p) for p in proofs), "steps")
