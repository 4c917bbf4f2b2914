#!/bin/bash
# cov.sh APP PROPERTY...: the lines of /repo in APP that the runs of the properties never execute
app=$1; shift; export DST_COV=1 DST_BUILD=${DST_BUILD:-/tmp/covb}
apps=$app; for p in "$@"; do apps="$apps $(sed -n "s/^$p //p" /verif/tools/apps.txt)"; done
python3 /verif/tools/build.py $apps >/dev/null || exit 1
printf %s "app_$app.so" > /tmp/dst.covapp
head -c 8388608 /dev/zero > /tmp/dst.cov
for p in "$@"; do "$DST_BUILD/dst" run --prop $p --seed 5 --wall ${WALL:-15} --min 1 --out /tmp/covo 2>/dev/null | tail -1; done
python3 - "$DST_BUILD/app_$app.so" <<'P'
import sys, subprocess, re, os, collections
so = sys.argv[1]; m = open('/tmp/dst.cov', 'rb').read()
d = subprocess.run(['objdump', '-d', '--no-show-raw-insn', so], capture_output=True, text=True).stdout
pcs = []; nxt = False
for l in d.splitlines():
    a = re.match(r'\s*([0-9a-f]+):\s+(\S+)\s*(.*)', l)
    if not a: continue
    if nxt: pcs.append(int(a.group(1), 16)); nxt = False
    if a.group(2) == 'call' and '__sanitizer_cov_trace_pc' in a.group(3): nxt = True
out = subprocess.run(['addr2line', '-e', so], input='\n'.join(hex(p - 1) for p in pcs), capture_output=True, text=True).stdout.splitlines()
hit = collections.Counter(); seen = set()
for p, o in zip(pcs, out):
    o = o.split(' ')[0]
    if '/repo/' not in o: continue
    f, n = o.rsplit(':', 1)
    if not n.isdigit(): continue
    seen.add((os.path.normpath(f), int(n))); hit[(os.path.normpath(f), int(n))] += m[p]
for f, n in sorted(seen):
    if not hit[(f, n)]: print(f"{f}:{n}: {(open(f).read().splitlines() + [''] * n)[n-1].strip()}")
print(sum(1 for s in seen if hit[s]), 'of', len(seen), 'lines')
P
