"""mkseed.mk(id, prop, needs, what, [(file, old, new), ...], demo files): writes /verif/seeded/id from edits of /repo."""
import json, os, shutil, subprocess, tempfile
V = "/verif"
C_DEMO = '''#!/bin/bash
# builds demo.c with the repository's own sources and runs it
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/gkcdemo.XXXXXX) || exit 2
srcs=$(grep -v '^#' compile.sh | grep -oE '[A-Za-z0-9_]+/[A-Za-z0-9_.]+\\.c' | sort -u | grep -v Main/gkc.c)
gcc -O1 -w -I. -c -o "$w/demo.o" "$here/demo.c" || exit 2
gcc -O0 -w -Dmain=unused_main -c -o "$w/gkc.o" Main/gkc.c || exit 2
gcc -O0 -w -o "$w/demo" "$w/demo.o" "$w/gkc.o" $srcs -lm || exit 2
(cd "$w" && timeout 120 ./demo)
rc=$?
rm -r "$w"
exit $rc
'''
def mk(sid, prop, needs, what, edits, files):
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    orig = {}
    try:
        for f, old, new in edits:
            p = os.path.join("/tmp/wk", f)
            b = open(p, "rb").read()
            orig.setdefault(p, b)
            if b"\r\n" in b:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            o = old.encode()
            assert b.count(o) == 1, (sid, f, b.count(o))
            open(p, "wb").write(b.replace(o, new.encode()))
        diff = subprocess.check_output(["git", "-C", "/tmp/wk", "diff", "--binary"])
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
    finally:
        for p, b in orig.items():
            open(p, "wb").write(b)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"))
    for n, t in files.items():
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
        if n == "demo.sh":
            os.chmod(os.path.join(d, n), 0o755)
    print(sid, len(diff))
