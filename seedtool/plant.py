#!/usr/bin/env python3
"""Turns bug descriptions (a python file with a list B) into /verif/seeded/<id>/ folders."""
import os, subprocess, sys, json, shutil, tempfile
B = []
def bug(id, prop, edits, needs, breaks, demo, deps=None):
    B.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, deps=deps))
exec(open(sys.argv[1]).read())
only = sys.argv[2:]
t = tempfile.mkdtemp()
subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", t + "/r"])
for b in B:
    if only and b["id"] not in only: continue
    d = f"/verif/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    for f, old, new in b["edits"]:
        p = f"{t}/r/{f}"; s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", t + "/r", "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    subprocess.check_call(["git", "-C", t + "/r", "checkout", "-q", "--", "."])
    if b["demo"].startswith("#!"):
        open(d + "/demo.sh", "w").write(b["demo"])
    else:
        shutil.copy("/verif/seedtool/demo.sh", d + "/demo.sh")
        open(d + "/main.rs", "w").write(b["demo"].lstrip())
    if b["deps"]: open(d + "/deps.toml", "w").write(b["deps"])
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("planted", b["id"])
shutil.rmtree(t)
