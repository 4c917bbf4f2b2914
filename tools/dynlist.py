import subprocess, sys
names = set()
for f in sys.argv[1:]:
    for l in subprocess.run(["nm", "-g", "--defined-only", f], capture_output=True, text=True).stdout.splitlines():
        p = l.split()
        if len(p) == 3 and p[1] in "TWBD" and not p[2].startswith("_Z"):
            names.add(p[2])
names -= {"main"}
names |= {"stdin", "stdout", "stderr"}
print("{\n" + "\n".join(f"  {n};" for n in sorted(names)) + "\n};")
