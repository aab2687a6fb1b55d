#!/usr/bin/env python3
"""mkseed.py NAME...: regenerates /verif/seeded/<id>/ from tools/seedlib/bugs.py (patch made against /repo's HEAD without touching it)."""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H)); sys.path.insert(0, H)
import bugs
for b in bugs.BUGS:
    if len(sys.argv) > 1 and b["id"] not in sys.argv[1:]: continue
    d = os.path.join(V, "seeded", b["id"]); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed"); out = ""
    try:
        files = {}
        for f, old, new in b["edits"]:
            s = files.get(f) or open("/repo/"+f).read()
            n = s.count(old)
            assert n == 1, (b["id"], f, old, n)
            files[f] = s.replace(old, new)
        for f, s in files.items():
            for side, text in (("a", open("/repo/"+f).read()), ("b", s)):
                p = os.path.join(t, side, f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(text)
            r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/"+f, "b/"+f], cwd=t, stdout=subprocess.PIPE, text=True); out += r.stdout
    finally: shutil.rmtree(t)
    open(d+"/patch.diff", "w").write(out)
    open(d+"/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom gmg import *\n" + b["demo"].strip() + "\n")
    lib = b.get("lib", "gmg.py"); shutil.copy(os.path.join(H, "gmg.py"), d+"/gmg.py")
    for x in b.get("files", ()): shutil.copy(os.path.join(H, x), d+"/"+x)
    open(d+"/demo.sh", "w").write('#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 PROJ_NETWORK=OFF\nexec /usr/bin/python3 -B "$D/demo.py"\n'); os.chmod(d+"/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d+"/meta.json", "w"), indent=1)
    print(b["id"])
