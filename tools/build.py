#!/usr/bin/env python3
"""Generates and runs the build of the simulator and of the applications under test.
usage: build.py APP...    (apps: download search server convert topn sort diff dupes)
Everything goes to /verif/build; the sources are /repo's current working tree."""
import os, subprocess, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
R = Path(os.environ.get("HIBP_REPO", "/repo"))
B = Path(os.environ.get("DST_BUILD", V / "build"))
APPS = ["download", "search", "server", "convert", "topn", "sort", "diff", "dupes"]

def esc(p): return str(p).replace(" ", "$ ").replace(":", "$:")

def main():
    want = sys.argv[1:] or APPS
    B.mkdir(parents=True, exist_ok=True)
    asio = "-DASIO_DISABLE_STD_STRING_VIEW -DASIO_HAS_STD_CHRONO -DASIO_STANDALONE"
    n = []
    w = n.append
    w(f"builddir = {esc(B)}")
    common = f"-O1 -g1 -DNDEBUG -DFMT_SHARED -fPIC -w -I{R}/include -I{V}/shim"
    w(f"appflags = {common} -fno-gnu-unique -fsanitize=thread -fno-omit-frame-pointer")
    if os.environ.get("DST_COV"): n[-1] += " -fsanitize-coverage=trace-pc"   # tools/cov.sh
    w(f"simflags = -std=c++20 -O2 -g1 -w -fno-gnu-unique -fno-threadsafe-statics" + (" -DDST_COV" if os.environ.get("DST_COV") else ""))
    w("rule appcxx\n  command = g++ -std=c++20 $appflags $extra -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    w("rule appc\n  command = gcc $appflags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    w("rule simcxx\n  command = g++ $simflags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    w("rule ar\n  command = rm -f $out && ar rcsD $out $in\n")
    w("rule so\n  command = g++ -shared -Wl,-Bsymbolic -Wl,-z,now -o $out $in -Wl,--start-group $libs -Wl,--end-group $syslibs\n")
    w("rule dynlist\n  command = python3 $script $in > $out\n")
    w("rule exe\n  command = g++ -no-pie -o $out $in -Wl,--dynamic-list=$dyn -Wl,-z,now -lcurl -levent -lfmt -ldl -lpthread\n")
    # repository sources, grouped by directory so that each application links what it may need
    groups = {}
    for f in sorted((R / "src").rglob("*")):
        if f.suffix not in (".cpp", ".cc", ".cxx", ".c"): continue
        rel = f.relative_to(R / "src")
        g = "srv" if rel.parts[0] == "srv" else "dnl" if rel.parts[0] == "dnl" else "base"
        o = B / "obj" / ("src_" + "_".join(rel.parts) + ".o")
        rule = "appc" if f.suffix == ".c" else "appcxx"
        w(f"build {esc(o)}: {rule} {esc(f)}")
        if g == "srv": w(f"  extra = {asio}")
        groups.setdefault(g, []).append(o)
    for g in ("base", "dnl", "srv"):
        w(f"build {esc(B)}/lib{g}.a: ar {' '.join(esc(o) for o in groups.get(g, []))}")
    for a in APPS:
        # the application may be one file app/hibp_X.cpp or gain others named after it
        srcs = sorted(set((R / "app").glob(f"hibp_{a}.cpp")) | set((R / "app").glob(f"hibp_{a}_*.cpp")))
        objs = []
        for f in srcs:
            o = B / "obj" / f"app_{f.name}.o"
            w(f"build {esc(o)}: appcxx {esc(f)}")
            if a == "server": w(f"  extra = {asio}")
            objs.append(o)
        libs = [B / "libbase.a"]
        if a == "download": libs.append(B / "libdnl.a")
        if a == "server": libs.append(B / "libsrv.a")
        w(f"build {esc(B)}/app_{a}.so: so {' '.join(map(esc, objs))} | {' '.join(map(esc, libs))}")
        w(f"  libs = {' '.join(map(str, libs))}")
        sl = "-lfmt"
        if a == "download": sl = "-lcurl -levent -lfmt"
        if a == "server": sl = "-lhttp_parser -lfmt"
        w(f"  syslibs = {sl}")
    sims = []
    for f in sorted((V / "sim").glob("*.cpp")):
        o = B / "obj" / f"sim_{f.stem}.o"
        w(f"build {esc(o)}: simcxx {esc(f)}")
        sims.append(o)
    w(f"build {esc(B)}/dyn.list: dynlist {' '.join(map(esc, sims))} | {esc(V)}/tools/dynlist.py")
    w(f"  script = {V}/tools/dynlist.py")
    w(f"build {esc(B)}/dst: exe {' '.join(map(esc, sims))} | {esc(B)}/dyn.list")
    w(f"  dyn = {B}/dyn.list")
    text = "\n".join(n) + "\n"
    nf = B / "build.ninja"
    if not nf.exists() or nf.read_text() != text: nf.write_text(text)
    r = subprocess.run(["ninja", "-f", str(nf), "--quiet", f"{B}/dst"] + [f"{B}/app_{a}.so" for a in want], stdout=sys.stderr)
    return r.returncode
sys.exit(main())
