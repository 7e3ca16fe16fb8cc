#!/usr/bin/env python3
"""mktus.py ID...: record, per property, which translation units its encoding needs (a hint only: run_check falls back to all units)."""
import glob, json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
V = B.VERIF
P = V + "/props/tus.json"
d = json.load(open(P)) if os.path.exists(P) else {}
b = B.Build()
srcs = B.all_tus(); names = [os.path.splitext(os.path.basename(s))[0] for s in srcs]
d["_all"] = names
defs, und = {}, {}
for s, n in zip(srcs, names):
    o = b.obj(s, True)
    defs[n], und[n] = set(), set()
    for l in subprocess.run(["nm", o], capture_output=True, text=True).stdout.splitlines():
        f = l.split()
        if f[-2] == "U": und[n].add(f[-1])
        elif f[-2] in "DBRGSVCWu" and not (f[-2] == "W" and not f[-1].startswith(("_ZTI", "_ZTV", "_ZTS"))): defs[n].add(f[-1])
where = {}
for n in names:
    for x in defs[n]: where.setdefault(x, n)
for id in sys.argv[1:]:
    t = "/tmp/tus.%s.json" % id
    subprocess.run([sys.executable, V + "/run_check.py", id, "--full", "--dump", t] + (["--tier", "thorough", "--time", "60"] if False else []), check=False)
    cov = set(json.load(open(t))["covered"]) & set(names)
    while True:
        add = {where[x] for n in cov for x in und[n] if x in where} - cov
        if not add: break
        cov |= add
    d[id] = sorted(cov)
    print(id, len(cov))
json.dump(d, open(P, "w"), indent=0, sort_keys=True)
