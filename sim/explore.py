#!/usr/bin/env python3
"""Developer tool: run many seeds of a property, list the classes of violations found."""
import subprocess, sys, os, re, collections, tempfile
from concurrent.futures import ThreadPoolExecutor
prop, total, b = sys.argv[1], int(sys.argv[2]), sys.argv[3]
base = int(sys.argv[4]) if len(sys.argv) > 4 else 1
kind = sys.argv[5] if len(sys.argv) > 5 else 'st'
binp = f"{b}/simbin_{kind}"
out = f"{b}/out"; os.makedirs(out, exist_ok=True)
res = collections.defaultdict(list); stats = []
def worker(w):
    n = total // 8; at = 0; loc = []
    while at < n:
        st = f"{b}/st{w}"; cnt = f"{b}/cnt{w}"
        p = subprocess.run([binp, "run", f"--prop={prop}", f"--base={base}", f"--from={at*8+w}", "--stride=8", f"--count={n-at}", f"--out={out}", "--maxfound=100000", f"--status={st}", "--recheck"], capture_output=True, text=True)
        for l in p.stdout.splitlines():
            if l.startswith("FOUND"):
                m = re.match(r"FOUND seed=(\d+) class=(\S+) hash=\S+ file=(\S+) detail=(.*)", l) or [0, "?", "BADLINE", "", l[:100]]; loc.append((m[2], m[4], m[1]))
            elif l.startswith("STATS"): stats.append(l); at = n
            elif l.startswith("NONDET"): loc.append(("NONDET", l, l))
            elif l.startswith("CRASH"): pass
        if not p.stdout.rstrip().splitlines() or not p.stdout.rstrip().splitlines()[-1].startswith("STATS"):
            seed = open(st).read().strip()
            cls = re.findall(r"CRASH class=(\S+)", p.stdout)
            loc.append((cls[-1] if cls else f"rc{p.returncode}", p.stdout[-200:], str(int(seed)) if seed else "?"))
            # find the index
            k = at
            import ctypes
            def mix(a,bb):
                M=(1<<64)-1
                s=((a*0x2545F4914F6CDD1D)&M) ^ ((bb+0x632BE59BD9B4E019)&M)
                s=(s+0x9E3779B97F4A7C15)&M; z=s
                z=((z^(z>>30))*0xBF58476D1CE4E5B9)&M; z=((z^(z>>27))*0x94D049BB133111EB)&M
                return z^(z>>31)
            while mix(base, k*8+w)>>1 != int(seed): k += 1
            at = k+1
    return loc
with ThreadPoolExecutor(8) as ex:
    for l in ex.map(worker, range(8)):
        for c, d, s in l: res[(c, re.sub(r"\d+", "N", d)[:110])].append(s)
for (c, d), s in sorted(res.items(), key=lambda x: -len(x[1]))[:25]: print(len(s), c, "|", d, "|", s[0])
if stats: print(stats[-1][:1500])
