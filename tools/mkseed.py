#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines BUGS=[dict(id, property, pkg, edits=[(file, old, new)], needs, breaks, demo, harness)]
and each is written to /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
here = os.path.dirname(os.path.abspath(__file__))
for b in ns["BUGS"]:
    d = "/verif/seeded/" + b["id"]
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed.", dir="/tmp")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call(["cp", "-a", "/repo", w + "/r"])
    for f, old, new in b["edits"]:
        p = os.path.join(w, "r", f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            print(b["id"], f, "pattern occurs", n, "times:", old[:60]); sys.exit(1)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w + "/r", "diff"])
    open(d + "/patch.diff", "wb").write(diff)
    shutil.rmtree(w)
    shutil.copy(here + "/demo/demo.sh", d + "/demo.sh")
    open(d + "/pkg", "w").write(b["pkg"] + "\n")
    hs = b.get("harness") or []
    if "harness_edge.go.txt" in hs:
        shutil.copy(here + "/demo/edge_overlay.sh", d + "/overlay.sh")
        for f in ("fake_fsthttp.txt", "fake_simple.txt", "fake_configstore.txt"):
            shutil.copy(here + "/demo/" + f, d + "/" + f)
    for h in [hs] if isinstance(hs, str) else hs:
        shutil.copy(here + "/demo/" + h, d + "/" + h)
    open(d + "/demo.go.txt", "w").write(b["demo"].lstrip())
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", d)
