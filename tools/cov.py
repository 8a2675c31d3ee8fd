#!/usr/bin/env python3
"""developers: lines of LAIK not reached by the quick checks: cov.py [PROPERTY...]"""
import os, re, subprocess, sys, glob
os.environ["MC_COV"] = "1"; os.environ.setdefault("MC_BUILD", "/tmp/mccov")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/tools")
import build
from plan import PLAN
props = sys.argv[1:] or sorted(PLAN)
mods = {}
for p in props:
    for m in PLAN[p]:
        if m.get("tier") != "thorough": mods.setdefault(m["variant"], set()).add(m["module"])
lines = {}
for v, ms in mods.items():
    d = build.build(v); cf = d + "/cov.bin"
    if os.path.exists(cf): os.remove(cf)
    env = dict(os.environ, MC_COVFILE=cf); ps = []
    for m in sorted(ms):
        for i in range(8):
            ps.append(subprocess.Popen([d + "/explore", "--lib", d + "/librank.so", "--module", m, "--tier", "quick", "--shard", f"{i}/8", "--time", "300", "--tmp", d], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
        for p in ps: p.wait()
        ps = []
    b = open(cf, "rb").read()
    dis = subprocess.run(["objdump", "-d", "--no-show-raw-insn", d + "/librank.so"], stdout=subprocess.PIPE, text=True).stdout
    prev = False; pts = []
    for l in dis.splitlines():
        m = re.match(r"\s*([0-9a-f]+):\s+(.*)", l)
        if not m: continue
        if prev: pts.append(int(m.group(1), 16))
        prev = "call" in m.group(2) and "__sanitizer_cov_trace_pc" in m.group(2)
    out = subprocess.run(["addr2line", "-e", d + "/librank.so"], input="\n".join(hex(p) for p in pts), stdout=subprocess.PIPE, text=True).stdout.split("\n")
    for p, l in zip(pts, out):
        f, n = l.split(" ")[0].rsplit(":", 1)
        if build.REPO in f and n.isdigit():
            k = (f.replace(build.REPO + "/", ""), int(n)); lines[k] = lines.get(k, 0) | b[p]
files = sorted({f for f, _ in lines})
for f in files:
    u = sorted(n for (g, n), c in lines.items() if g == f and not c); t = sum(1 for g, _ in lines if g == f)
    src = open(build.REPO + "/" + f).read().split("\n")
    print(f"== {f}: {t - len(u)} of {t} block lines reached")
    for n in u: print(f"  {n}: {src[n - 1].strip()[:110]}")
