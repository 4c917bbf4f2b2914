#!/usr/bin/env python3
"""Regenerates /verif/seeded/<id>/ from the edits in tools/seeds/*.py against /repo's HEAD."""
import sys, json, shutil, subprocess, tempfile, glob, os
from pathlib import Path
V = Path(__file__).resolve().parent.parent
SEEDS = {}
def seed(id, prop, edits, needs, breaks, demo, files=("lib.sh", "srv.py")):
    SEEDS[id] = (prop, edits, needs, breaks, demo, files)
TL = ""
for f in sorted(glob.glob(str(V / "tools/seeds/*.py"))): exec(compile(open(f).read(), f, "exec"))
want = sys.argv[1:] or list(SEEDS)
T = tempfile.mkdtemp(prefix="/tmp/mk.")
subprocess.run(f"git -C /repo archive HEAD app src include | tar x -C {T} && cd {T} && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, check=True)
for i in want:
    prop, edits, needs, breaks, demo, files = SEEDS[i]
    for f, a, b in edits:
        p = Path(T) / f; s = p.read_text()
        if s.count(a) != 1: print(f"{i}: {f}: {s.count(a)} matches for {a[:60]!r}"); break
        p.write_text(s.replace(a, b))
    else:
        d = V / "seeded" / i; d.mkdir(parents=True, exist_ok=True)
        diff = subprocess.run(["git", "-C", T, "diff"], capture_output=True, text=True).stdout
        (d / "patch.diff").write_text(diff)
        for x in files: shutil.copy(V / ("shim" if x == "sha1.h" else "tools/demo") / x, d / x)
        (d / "demo.sh").write_text("#!/bin/bash\n" + demo.lstrip("\n"))
        (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    subprocess.run(["git", "-C", T, "checkout", "-q", "--", "."], check=True)
shutil.rmtree(T)
