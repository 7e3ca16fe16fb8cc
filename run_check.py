#!/usr/bin/env python3
"""run_check.py ID [--tier quick|thorough]: decide one property by symbolic execution of /repo's current code."""
import argparse, json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF); sys.path.insert(0, os.path.join(VERIF, "engine"))
import build as B
import spec as S

STATUS = {3: "assertion", 4: "crash", 5: "hang"}


def demangle(names):
    names = list(names)
    try:
        out = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True, timeout=60).stdout.split("\n")
        return out[:len(names)]
    except Exception:
        return names


def replay(exe, tier, hexin, timeout=30):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=12:allocator_may_return_null=1:max_allocation_size_mb=512:handle_segv=1:detect_stack_use_after_return=0")
    try:
        p = subprocess.run([exe, tier, hexin], capture_output=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return True, "replay did not end within %d s" % timeout
    out = (p.stdout + p.stderr).decode("utf-8", "replace")
    if p.returncode == 0:
        return False, out.strip()[-300:]
    m = re.search(r"REPLAY-VIOLATION.*|ERROR: AddressSanitizer.*", out)
    return True, (m.group(0) if m else "exit %d: %s" % (p.returncode, out.strip()[-300:]))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true"); ap.add_argument("--time", type=float); ap.add_argument("--full", action="store_true")
    ap.add_argument("-v", action="store_true"); ap.add_argument("--dump")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = S.by_id()[a.id]
    chk = prop["check"]
    tier = "thorough" if a.tier == "thorough" else "quick"
    T = "1" if tier == "thorough" else "0"
    work = os.path.join(VERIF, ".work", a.id + "." + str(os.getpid())); os.makedirs(work, exist_ok=True)
    budget = a.time or chk.get("time", {}).get(tier, 40 if tier == "quick" else 900)
    known = [k for k in S.known_findings() if k["property"] == a.id and k["status"] == "open"]
    code = 0
    try:
        b = B.Build(print)
        srcs = [os.path.join(VERIF, "harness", h) for h in chk["harness"]]
        tus = None if a.full else S.tus(a.id)
        res = None
        for attempt in (0, 1):
            exe = os.path.join(work, "sym")
            try:
                b.build(srcs, exe, True, tus)
            except B.BuildError:
                if tus is None: raise
                tus = None; continue
            outj = os.path.join(work, "out.json")
            cmd = [exe, "-o", outj, "-t", str(budget), "-T", T, "-S", str(seed), "-s", str(chk.get("path_s", 5)), "-j", str(B.JOBS), "-z", str(chk.get("z3_ms", 10000))]
            if a.v: cmd.append("-V")
            wit = os.path.join(work, "wit")
            cmd += ["-w", wit]
            p = subprocess.run(cmd, capture_output=not a.v, text=True, timeout=budget + 120)
            if p.returncode == 0 and os.path.exists(outj):
                res = json.load(open(outj))
                unresolved = tus is not None and (res["engine"] or any(v["kind"] == 4 for v in res["violations"]) or not res["ok"])
                if not unresolved: break
            if tus is None: break
            # a module outside the recorded set may have been needed: encode everything
            print("re-encoding with all translation units"); tus = None; res = None
        if res is None:
            print("engine failed: %s" % ((p.stderr or "")[-2000:])); return 2
        # ---- counterexamples: replay each against the real (uninstrumented, sanitized) build
        confirmed, spurious, knownhit = [], [], []
        nat = None
        if res["violations"]:
            nat = os.path.join(work, "nat")
            b.build(srcs, nat, False, tus)
            for v in res["violations"]:
                ok, how = replay(nat, T, v["input"], chk.get("replay_s", 30))
                rec = {"property": a.id, "tier": tier, "kind": STATUS.get(v["kind"], str(v["kind"])), "tag": v["tag"], "where": demangle([v["where"]])[0] if v["where"] else "",
                       "input": v["input"], "variables": v["names"], "replay": how, "harness": chk["harness"]}
                if not ok: spurious.append(rec); continue
                k = [k for k in known if re.search(k["match"], rec["tag"] + " @ " + rec["where"])]
                if k: knownhit.append((k[0], rec)); continue
                confirmed.append(rec)
        # ---- sampled paths replayed against the real build
        validated, mism = 0, []
        if tier == "thorough" or chk.get("validate"):
            if nat is None:
                nat = os.path.join(work, "nat"); b.build(srcs, nat, False, tus)
            recs = []
            for f in sorted(os.listdir(work)):
                if f.startswith("wit."):
                    d = open(os.path.join(work, f), "rb").read()
                    for o in range(0, len(d) - 259, 260):
                        n = int.from_bytes(d[o:o + 4], "little"); recs.append(d[o + 4:o + 4 + n].hex())
            step = max(1, len(recs) // 200)
            for h in recs[::step][:200]:
                ok, how = replay(nat, T, h)
                validated += 1
                if ok: mism.append({"input": h, "replay": how})
        for m in mism:
            confirmed.append({"property": a.id, "tier": tier, "kind": "replay", "tag": "path accepted by the encoding fails on the real build", "where": "", "input": m["input"], "replay": m["replay"], "harness": chk["harness"], "variables": []})
        shown = set()
        for k, rec in knownhit:
            if k["id"] in shown: continue
            shown.add(k["id"])
            print("KNOWN-FINDING: property=%s %s" % (a.id, k["what"]))
        for i, rec in enumerate(confirmed):
            rp = os.path.join(VERIF, "replays", "%s-%d.json" % (a.id, i)); os.makedirs(os.path.dirname(rp), exist_ok=True)
            json.dump(rec, open(rp, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (a.id, rp))
            print("  %s: %s %s (%s)" % (rec["kind"], rec["tag"], ("in " + rec["where"]) if rec["where"] else "", rec["replay"].strip()))
            code = 1
        cov = res["covered"]; fns = []
        for mod, l in cov.items():
            if mod.startswith(B.REPO + "/"): fns += l
        fns = sorted(set(demangle(sorted(set(fns)))))
        mods = sorted(m[len(B.REPO) + 1:] for m in cov if m.startswith(B.REPO + "/"))
        samples = [{"input_bytes": s} for s in res["samples"]] or [{"input_bytes": ""}]
        ev = {"property": a.id, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {
                  "states": res["decs"], "transitions": res["qmask"] + res["qz3"] + res["qcache"], "traces_validated_against_impl": res["paths"], "samples": samples,
                  "exhaustive": bool(res["complete"]),
                  "explanation": "states = symbolic decision points reached over all paths; transitions = alternatives of those decisions decided (taken or refuted) by the solver; traces_validated_against_impl = symbolic paths, each executed natively to its end on the instrumented build of the real code; exhaustive = every decision's alternative was either explored or refuted by the solver within the bounds",
                  "bounds": chk["bounds"], "outside": chk.get("outside", ""),
                  "functions_encoded": len(fns), "functions": [f[:110] for f in fns[:200]], "modules": mods[:80], "translation_units_linked": "all" if tus is None else len(tus),
                  "assertion_queries": res["assertQ"], "smt_queries": res["qz3"], "smt_sat": res["qz3sat"], "smt_unsat": res["qz3unsat"], "smt_unknown": res["qunk"],
                  "byte_domain_queries": res["qmask"], "byte_domain_unsat": res["qmaskunsat"], "byte_domain_crosschecked_by_smt": res["xchk"], "byte_domain_crosscheck_mismatches": res["xbad"],
                  "query_cache_hits": res["qcache"], "solver_s": res["solver_s"], "paths_ok": res["ok"], "paths_pruned_by_assumptions": res["pruned"],
                  "limits_hit": res["limits"], "limit_reason": res["limitMsg"], "queue_left": res["queue_left"], "engine_errors": res["engine"], "engine_message": res["engineMsg"],
                  "external_calls_concretized": dict(list(res["opaque_calls"].items())[:60]) if isinstance(res["opaque_calls"], dict) else list(res["opaque_calls"])[:60], "witnesses_reached": res["reach"], "witness_replays": validated,
                  "spurious_counterexamples": spurious[:8], "known_findings_hit": [k["id"] for k, _ in knownhit],
                  "max_decisions_on_a_path": res["maxdec"], "symbolic_bytes": res["maxvars"]},
              "assumptions": S.COMMON_ASSUMPTIONS + chk.get("assumptions", []),
              "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", a.id + ".json"), "w"), indent=1)
        missing = [w for w in chk.get("witnesses", []) if w not in res["reach"]]
        if a.dump: json.dump({"covered": sorted(os.path.splitext(os.path.basename(m))[0] for m in cov if m.startswith(B.REPO + "/"))}, open(a.dump, "w"))
        if missing and not confirmed: print("note: witnesses not reached: %s" % ", ".join(missing))
        print("%s %s: %d paths, %d decisions, %d assertion queries, %d SMT queries (%.1f s), complete=%s%s%s, %d violation(s), %.1f s" % (
            a.id, tier, res["paths"], res["decs"], res["assertQ"], res["qz3"], res["solver_s"], res["complete"],
            (", limit: " + res["limitMsg"]) if res["limitMsg"] else "", (", engine: " + res["engineMsg"]) if res["engine"] else "", len(confirmed), time.time() - t0))
        if spurious: print("note: %d counterexample(s) did not reproduce on the real build and are not reported: %s" % (len(spurious), [(s["tag"], s["where"], s["replay"][-80:]) for s in spurious][:3]))
        return code
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except B.BuildError as e:
        print(str(e)[-4000:]); sys.exit(2)
