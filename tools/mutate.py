#!/usr/bin/env python3
"""Mutation testing of the checks: mutate.py OUT.jsonl [--files REGEX] [--max N] [--seed N] [--wall S]
Each mutant of the repository's sources is built in a scratch copy and given to the properties its file bears on; survivors are listed."""
import argparse, json, os, random, re, shutil, subprocess, sys, tempfile
from pathlib import Path
V = Path(__file__).resolve().parent.parent
ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("--files", default="."); ap.add_argument("--max", type=int, default=10**6); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--wall", type=int, default=6); ap.add_argument("--workers", default="")
A = ap.parse_args()
PROPS = [("app/hibp_download.cpp", "C01 C05 C08 C09 C03 C04"), ("src/dnl/resume", "C05 C01 C08 C06 C21"), ("src/dnl/", "C01 C02 C03 C08 C05 C04 C06 C07 C19"), ("app/hibp_search", "C10 C11 C20 C18"), ("src/toc", "C11 C10 C16 C22 C19 C18"), ("app/hibp_topn", "C13 C09 C20 C18 C19"), ("app/hibp_convert", "C14 C09 C20 C18 C19"), ("app/hibp_sort", "C12 C20 C18"), ("app/hibp_diff", "C15 C20 C19"), ("app/hibp_dupes", "C15 C20 C19"), ("src/diffutils", "C15"), ("app/hibp_server", "C16 C17"), ("src/srv", "C16 C17"), ("flat_file", "C12 C10 C13 C14 C15 C01 C04 C16 C18 C20 C19"), ("include/srv", "C16 C17"), ("include/dnl", "C01 C02 C03"), ("include/hibp.hpp", "C01 C10 C14 C15 C16"), ("ntlm", "C10 C16"), ("include/", "C10 C14 C13 C16 C01")]
APPS = {l.split()[0]: l.split()[1:] for l in (V / "tools/apps.txt").read_text().splitlines() if l.strip()}
OPS = [(r"(?<![<=>!\-])<(?![<=])(?=[^<>]*[;){])", "<="), (r"<=(?!>)", "<"), (r"(?<![\-<=>])>(?![>=])(?= ?[\w(])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r" \+ ", " - "), (r" - ", " + "), (r"\+=", "-="), (r"-=", "+="), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bif \((?!constexpr)", "if (!("), (r"\+\+(\w+)", r"\1"), (r"(\w+)\+\+", r"\1"), (r"(?<![\w.'])(\d+)(?![\w.'])", None), (r"(?<![\w.'])(\d+)(?![\w.'])", -1), (r"\bstd::min\b", "std::max"), (r"\bstd::max\b", "std::min"), (r"\.front\(\)", ".back()"), (r"\.back\(\)", ".front()"), ("DEL", ""), (r" \* ", " / "), (r" % ", " / ")]
def mutants(root):
    for f in sorted(list((root / "app").glob("*.cpp")) + list((root / "src").rglob("*.cpp")) + list((root / "include").rglob("*.hpp"))):
        rel = str(f.relative_to(root))
        if not re.search(A.files, rel) or "arrcmp" in rel: continue
        lines = f.read_text().split("\n"); skip = 0
        for i, l in enumerate(lines):
            code = l.split("//")[0]
            if re.match(r"\s*(#|//|template|using|namespace|static_assert|\*)", l) or not code.strip(): continue
            if re.search(r"add_option|add_flag|\"[^\"]*\"\)?\s*$|std::cout <<|std::cerr <<|logger|print_progress|include", code): continue
            for pat, rep in OPS:
                if pat == "DEL":
                    if re.match(r"\s+[\w:.>\-\[\]<>+(]+.*;\s*$", code) and not re.match(r"\s*(return|auto|const|std::\w+(<.*>)?\s+\w+[;({ =]|unsigned|int|bool|break|continue|static|using|throw)", code) and code.count("(") == code.count(")") and code.count("{") == code.count("}"):
                        yield rel, i, l, re.match(r"\s*", l).group(0) + ";"
                    elif re.match(r"\s*(break|continue|throw|return)\b.*;\s*$", code) and code.count("(") == code.count(")"): yield rel, i, l, re.match(r"\s*", l).group(0) + ";"
                    continue
                for m in re.finditer(pat, code):
                    if code[:m.start()].count('"') % 2: continue
                    if rep is None: new = str(int(m.group(1)) + 1)
                    elif rep == -1:
                        if int(m.group(1)) == 0: continue
                        new = str(int(m.group(1)) - 1)
                    else: new = m.expand(rep)
                    c = code[:m.start()] + new + code[m.end():]
                    if new == "if (!(":
                        k, d = m.end(), 1
                        while k < len(code) and d: d += {"(": 1, ")": -1}.get(code[k], 0); k += 1
                        if d: continue
                        c = code[:m.start()] + "if (!(" + code[m.end():k] + ")" + code[k:]
                    yield rel, i, l, c
def main():
    T = Path(tempfile.mkdtemp(prefix="/tmp/mut.")); R = T / "r"; R.mkdir()
    subprocess.run(f"git -C /repo archive HEAD app src include CMakeLists.txt | tar x -C {R}", shell=True, check=True)
    ms = list(mutants(R)); random.Random(A.seed).shuffle(ms); ms = ms[:A.max]
    print(len(ms), "mutants", flush=True)
    env = dict(os.environ, HIBP_REPO=str(R), DST_BUILD=str(T / "b"))
    out = open(A.out, "a"); st = {}
    for n, (rel, i, old, new) in enumerate(ms):
        f = R / rel; src = f.read_text(); L = src.split("\n"); L[i] = new; f.write_text("\n".join(L))
        props = next((p for k, p in PROPS if k in rel), "C10 C14").split(); res, by = "survived", ""
        built = set()
        for p in props:
            need = [a for a in APPS[p] if a not in built]
            if need and subprocess.run(["python3", str(V / "tools/build.py")] + need, env=env, capture_output=True).returncode: res = "build"; break
            built |= set(need)
            r = subprocess.run([str(T / "b/dst"), "run", "--prop", p, "--seed", str(1 + n), "--wall", str(A.wall), "--min", "1", "--out", str(T / "o")] + (["--jobs", A.workers] if A.workers else []), capture_output=True, text=True, errors="replace")
            if r.returncode: res, by = ("caught" if r.returncode == 1 else f"rc{r.returncode}"), p; break
        f.write_text(src); st[res] = st.get(res, 0) + 1
        out.write(json.dumps({"file": rel, "line": i + 1, "old": old.strip(), "new": new.strip(), "res": res, "by": by}) + "\n"); out.flush()
        if res not in ("caught", "build"): print(n, res, by, f"{rel}:{i+1}: {old.strip()}  =>  {new.strip()}", flush=True)
    print(st); shutil.rmtree(T)
main()
