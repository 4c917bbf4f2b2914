#!/usr/bin/env python3
"""Lists planted bugs that only change lines which /repo's own later commits added."""
import subprocess, re, glob, os
base = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.split()[-1]
cache = {}
def orig(f):
    if f not in cache:
        o = subprocess.run(["git", "-C", "/repo", "blame", "-s", "--porcelain", "HEAD", "--", f], capture_output=True, text=True).stdout
        cache[f] = [l.startswith(base) for l in o.split("\n") if re.match(r"[0-9a-f]{40} ", l)]
    return cache[f]
for d in sorted(glob.glob("/verif/seeded/*/")):
    n = os.path.basename(d[:-1]); ok = False; f = None; skip = 0
    # hunks of a patch with context: walk
    old = 0; run = []
    L = open(d + "patch.diff").read().split("\n"); i = 0
    while i < len(L):
        l = L[i]
        if l.startswith("--- a/"): f = l[6:]
        elif l.startswith("@@"):
            old = int(re.match(r"@@ -(\d+)", l)[1])
        elif f and l[:1] in (" ", "-", "+") and not l.startswith("+++"):
            if l[0] == "-": ok |= orig(f)[old - 1]; old += 1
            elif l[0] == "+":
                if L[i - 1][:1] == " " or L[i - 1].startswith("@@"):
                    j = i
                    while L[j][:1] == "+": j += 1
                    if L[j][:1] != "-":
                        o = orig(f); ok |= all(o[x - 1] for x in (old - 1, old) if 1 <= x <= len(o))
            else: old += 1
        i += 1
    if not ok: print(n, "does not count")
