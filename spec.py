#!/usr/bin/env python3
"""Single source of the specification: joins the property texts (props/proplist.py) with the checks (props/checks.py).
   'python3 spec.py' rewrites properties.jsonl and MANIFEST.json."""
import json, os, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "props"))
import proplist, checks

COMMON_ASSUMPTIONS = [
    "allocation succeeds (an allocation failure reported by the library as an out-of-memory error is not explored)",
    "library code outside pdfmm (libc, libstdc++ internals not instantiated in the encoded units, libcrypto, zlib, libjpeg, libpng, freetype, libxml2) is executed natively with its arguments concretized by enumeration",
    "single-threaded execution; locale C; x86-64 machine arithmetic as compiled by clang 18 at -O1",
]
TECH = "symbolic execution of the compiled LLVM IR of /repo's sources with exhaustive path enumeration; every branch alternative and every assertion is decided by the SMT solver (z3), counterexamples are replayed on a sanitized build"


def by_id():
    d = {}
    for p in proplist.PROPS:
        q = dict(p)
        if p["id"] in checks.CHECKS: q["check"] = checks.CHECKS[p["id"]]
        d[p["id"]] = q
    return d


def known_findings():
    p = os.path.join(VERIF, "known-findings.jsonl")
    return [json.loads(l) for l in open(p) if l.strip()] if os.path.exists(p) else []


def tus(id):
    p = os.path.join(VERIF, "props", "tus.json")
    if not os.path.exists(p): return None
    d = json.load(open(p))
    return (d[id], d["_all"]) if id in d else None


def write():
    ids = by_id()
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in proplist.PROPS: f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3 engine/setup.py", "checks": [], "not_applicable": []}
    for id, p in ids.items():
        if "check" in p:
            c = p["check"]
            m["checks"].append({"property": id, "quick_cmd": "python3 run_check.py %s --tier quick" % id, "thorough_cmd": "python3 run_check.py %s --tier thorough" % id,
                                "technique": TECH, "level": "model_checking",
                                "level_note": "Bounded: " + c["bounds"] + (" Outside: " + c["outside"] if c.get("outside") else "")})
        else:
            m["not_applicable"].append({"property": id, "reason": checks.NA.get(id, "no check built yet")})
    json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)


def design():
    o = [open(os.path.join(VERIF, "props", "design_head.md")).read()]
    for k in known_findings(): o.append("* %s %s (%s%s): %s\n" % (k["id"], k["property"], k["status"], " " + k["commit"] if k.get("commit") else "", k["what"]))
    if hasattr(checks, "NOTES"): o.append("\n" + checks.NOTES.strip() + "\n")
    o.append("\n## Properties\n\n")
    for id, p in by_id().items():
        o.append("### %s %s\n\n" % (id, p["title"]))
        if "check" in p:
            c = p["check"]
            o.append("%s\n\n*Harness:* `%s`. *Bounds:* %s.%s\n\n" % (c.get("how", "").strip() or checks.HOW.get(id, ""), ", ".join(c["harness"]), c["bounds"], (" *Outside:* " + c["outside"] + ".") if c.get("outside") else ""))
        else: o.append("Not applicable: %s\n\n" % checks.NA.get(id, "no check built yet"))
    r = os.path.join(VERIF, "props", "planted.json")
    if os.path.exists(r):
        o.append("## Planted bugs\n\nEach is in `seeded/<id>`; the last column is what the quick check of the property reported.\n\n| id | property | needs | caught |\n|---|---|---|---|\n")
        for x in sorted(json.load(open(r)).values(), key=lambda x: x["id"]): o.append("| %s | %s | %s | %s |\n" % (x["id"], x["property"], x["needs"], x["caught"]))
    open(os.path.join(VERIF, "DESIGN.md"), "w").write("".join(o))


if __name__ == "__main__":
    write(); design()
    import jsonschema
    def load(n): return json.load(open("/root/.vp/" + n))
    jsonschema.validate(json.load(open(os.path.join(VERIF, "MANIFEST.json"))), load("MANIFEST.schema.json"))
    for l in open(os.path.join(VERIF, "properties.jsonl")): jsonschema.validate(json.loads(l), load("PROPERTIES.schema.json"))
    print("ok: %d properties, %d checks" % (len(proplist.PROPS), len(checks.CHECKS)))
