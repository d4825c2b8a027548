#!/usr/bin/env python3
"""mkbug.py FILE.json : make seeded/<id>/ from {"id","property","needs","breaks","edits":[[file, old, new, nth]], "demo": python}"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mkbug"


def make(b):
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.run("rm -rf /tmp/mkbug && git clone -q /repo /tmp/mkbug", shell=True, check=True)
    for e in b["edits"]:
        f, old, new = e[:3]
        p = os.path.join(W, f)
        s = open(p).read()
        k = e[3] if len(e) > 3 else None
        n = s.count(old)
        assert n >= 1 and (n == 1 or k), (b["id"], f, "occurrences", n)
        i = -1
        for _ in range(k or 1):
            i = s.index(old, i + 1)
        s = s[:i] + new + s[i + len(old):]
        open(p, "w").write(s)
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "-C", W, "diff"], stdout=subprocess.PIPE, check=True).stdout
    open(d + "/patch.diff", "wb").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    shutil.copy(os.path.join(V, "tools/demo_lsp.py"), d + "/demo_lsp.py")
    open(d + "/demo.py", "w").write("from demo_lsp import *\n" + b["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 exec timeout 120 python3 "$d/demo.py"\n')
    subprocess.run(["rm", "-rf", W])


ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
for b in ns["BUGS"]:
    if not want or b["id"] in want:
        make(b)
        print(b["id"])
