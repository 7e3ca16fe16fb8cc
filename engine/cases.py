#!/usr/bin/env python3
"""cases.py [-T] [-t secs] HARNESS [k...]: development aid - explore each case of a harness on its own and print its cost."""
import json, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
a = sys.argv[1:]; T = "0"; t = "20"
if a[0] == "-T": T = "1"; a = a[1:]
if a[0] == "-t": t = a[1]; a = a[2:]
src = B.VERIF + "/harness/" + a[0] if not a[0].startswith("/") else a[0]
exe = "/tmp/h/" + os.path.basename(a[0])[:-4]
os.makedirs("/tmp/h", exist_ok=True)
try: B.Build(print).build([src], exe, True)
except B.BuildError as e: print(str(e)[:6000]); sys.exit(1)
m = re.search(r'__sx_range\("case", 0, (?:N_CASES - 1|(\d+))', open(src).read())
n = int(m.group(1)) + 1 if m and m.group(1) else int(re.search(r"N_CASES = (\d+)", open(src).read()).group(1))
for k in (map(int, a[1:]) if a[1:] else range(n)):
    o = "/tmp/h/case.json"
    if os.path.exists(o): os.remove(o)
    p = subprocess.run([exe, "-o", o, "-t", t, "-T", T, "-j", "8"], env=dict(os.environ, SYMX_CASE=str(k)), capture_output=True, text=True)
    if not os.path.exists(o): print(k, "FAILED", p.stderr[-500:]); continue
    r = json.load(open(o))
    print("case %2d: paths %6d ok %6d decs %7d z3 %6d (%.1fs) maxdec %d wall %s complete %s %s %s viol %s reach %s" % (k, r["paths"], r["ok"], r["decs"], r["qz3"], r["solver_s"], r["maxdec"], r.get("wall_s", "?"), r["complete"], r["limitMsg"], ("ENGINE %d %s" % (r["engine"], r["engineMsg"])) if r["engine"] else "",
        [(v["kind"], v["tag"], v["where"][:60], v["input"]) for v in r["violations"]][:4], list(r["reach"])), flush=True)
