#!/usr/bin/env python3
"""check.py <PROPERTY>: decides one property on /repo's current working tree. Exit 0: held on everything explored.
Exit 1 with 'VIOLATION property=<id> replay=<path>': broken."""
import ast, sys, os, json, time, subprocess, importlib, concurrent.futures as cf, re, signal
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from engine import build
PY = os.environ.get("VERIF_PY", "/opt/veriftools/pyvenv/bin/python3")

def contract_units(prop):
    """names of the units the contract file registers (asked of it in a process of its own: z3 is not loaded into this one)"""
    o = subprocess.run([PY, "-c", "import json, contracts.%s as c; print('@@' + json.dumps([list(c.UNITS), list(c.BOUNDED)]))" % prop], cwd=VERIF, stdout=subprocess.PIPE, text=True, check=True).stdout
    return json.loads(o[o.index("@@") + 2:])

def run_unit(prop, unit, tier, bounded, budget):
    try:
        p = subprocess.run([PY, "-m", "engine.unit", prop, unit, tier, "bounded" if bounded else "proof", str(budget)], cwd=VERIF,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=budget + 60)
        m = re.search(r"^@@RESULT (.*)$", p.stdout, re.M)
        if os.environ.get("VERIF_VERBOSE"): sys.stdout.write(p.stdout[:20000]); sys.stderr.write(p.stderr[-3000:])
        if m: return json.loads(m.group(1))
        return {"unit": unit, "obligations": [], "error": "unit process ended: " + p.stderr[-300:], "cases": []}
    except subprocess.TimeoutExpired:
        return {"unit": unit, "obligations": [], "error": "unit timed out", "cases": []}

def run_native(prop, args, timeout):
    exe = "%s/h_%s" % (build.BUILD, prop)
    if not os.path.exists(exe): return None
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0")
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=env, cwd=build.BUILD)
        return {"rc": p.returncode, "out": p.stdout, "err": p.stderr[-4000:]}
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return {"rc": -1, "out": o.decode("utf-8", "replace") if isinstance(o, bytes) else o, "err": "timeout"}

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    budget_total = 800 if tier == "quick" else 3400
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    repdir = "%s/replay/%s" % (build.BUILD, prop); os.makedirs(repdir, exist_ok=True)
    units, bunits = contract_units(prop)
    have_native = os.path.exists("%s/native/%s.cpp" % (VERIF, prop))
    targets = []
    if os.environ.get("VERIF_SKIP_NATIVE"): have_native = False
    if have_native: targets.append("%s/h_%s" % (build.BUILD, prop))
    if units or bunits: targets.append("%s/ir/%s.json" % (build.BUILD, prop))
    irp = "%s/ir/%s.json" % (build.BUILD, prop)
    ok, out = build.ninja(targets)
    if not ok:
        # a partial failure (one of the two targets) degrades to the other; never an alarm by itself
        sys.stderr.write("build problem:\n" + out[-2500:] + "\n")
        for t in targets:
            o2, _ = build.ninja([t])
            if not o2 and os.path.exists(t): os.remove(t)
    only = os.environ.get("VERIF_UNIT")
    if only: units = [u for u in units if re.search(only, u)]
    ubud = 420 if tier == "quick" else 900
    jobs = []; native = None
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        nf = ex.submit(run_native, prop, ["run", tier, str(seed)], 400 if tier == "quick" else 2400) if have_native else None
        fs = [ex.submit(run_unit, prop, u, tier, False, ubud) for u in units]
        if tier == "thorough": fb = [ex.submit(run_unit, prop, u, tier, True, ubud) for u in bunits]
        else: fb = []
        results = [f.result() for f in fs]
        native = nf.result() if nf else None
        bres = [f.result() for f in fb]
    obls = [dict(o, unit=r["unit"]) for r in results for o in r["obligations"]]
    refuted = [o for o in obls if o["status"] == "refuted"]
    undecided = [o for o in obls if o["status"] == "unknown"] + [{"name": r["unit"], "status": "unsupported", "detail": r["error"]} for r in results if r["error"]]
    # one entry per obligation name: proved only if proved on every path it was generated on
    byname = {}
    for o in obls:
        n = byname.setdefault(o["name"], {"status": "proved", "paths": 0, "s": 0.0, "by": set()})
        n["paths"] += 1; n["s"] += o["s"]; n["by"].add(o["by"])
        if o["status"] != "proved": n["status"] = o["status"]
    known = []
    kf = VERIF + "/known_findings.json"
    if os.path.exists(kf): known = [k for k in json.load(open(kf)) if k.get("property") == prop and k.get("status") == "open"]
    violations = []; knownhit = {}
    fails = []
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "samples": []}
    def parse_native(nr, label):
        if nr is None: return
        for line in nr["out"].splitlines():
            if line.startswith("CASES "): cov["evaluations"] += int(line.split()[1])
            elif line.startswith("DISTINCT "): cov["distinct_nontrivial"] += int(line.split()[1])
            elif line.startswith("SAMPLE "):
                if len(cov["samples"]) < 12: cov["samples"].append(line[7:][:300])
            elif line.startswith("FAIL "): fails.append((line[5:], label))
        if nr["rc"] not in (0, 1):
            if not any(l.startswith("FAIL ") for l in nr["out"].splitlines()):
                m = re.findall(r"^CASE (.*)$", nr["out"], re.M)
                if nr["rc"] == -1: undecided.append({"name": "native harness", "status": "unknown", "detail": "timeout"})
                else:
                    # died without reporting: replay the last announced case to confirm
                    fails.append(("crash rc=%d case=%s | %s" % (nr["rc"], m[-1] if m else "?", nr["err"][-600:].replace("\n", " ")), label))
    if have_native and native is None:
        if units: print("note: the native harness does not build against this tree; only the proofs decide")
        else: undecided.append({"name": "native harness", "status": "unsupported", "detail": "does not build against this tree"})
    parse_native(native, "bounded")
    # search for a failing input behind refuted obligations
    if (refuted or undecided) and not fails and bunits and tier != "thorough":
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            bres = list(ex.map(lambda u: run_unit(prop, u, tier, True, 200), bunits))
    replays = []
    for r in bres:
        for c in r["cases"]:
            nr = run_native(prop, ["replay", c], 60) if have_native else None
            confirmed = nr is not None and nr["rc"] not in (0, -1)
            replays.append({"unit": r["unit"], "case": c, "confirmed": confirmed})
            if confirmed:
                fl = [l[5:] for l in nr["out"].splitlines() if l.startswith("FAIL ")]
                fails.append((fl[0] if fl else "case=%s (rc %d)" % (c, nr["rc"]), "solver counterexample replayed"))
    if (refuted or undecided) and not fails and have_native and tier == "quick":
        nr = run_native(prop, ["run", "deep", str(seed + 1)], max(30, min(200, budget_total - (time.time() - t0))))
        if nr and nr["err"] != "timeout": parse_native(nr, "bounded, deeper search")
        elif nr: parse_native({"rc": 0, "out": nr["out"], "err": ""}, "bounded, deeper search")
    real = []
    for f, label in fails:
        k = next((k for k in known if re.search(k["match"], f)), None)
        if k: knownhit[k["id"]] = k
        else: real.append((f, label))
    for k in known:
        # a listed finding is reported whenever it is still present
        if k["id"] in knownhit: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if real:
        p = "%s/violation.txt" % repdir
        with open(p, "w") as f:
            f.write("property %s: failing input on the real code\nreplay: %s/h_%s replay '<case>'\n" % (prop, build.BUILD, prop))
            for x, label in real[:20]: f.write("[%s] %s\n" % (label, x))
            for o in refuted[:20]: f.write("refuted obligation: %s\n  %s\n" % (o["name"], o["detail"]))
        violations.append((p, ""))
    elif refuted or undecided:
        p = "%s/obligation.txt" % repdir
        with open(p, "w") as f:
            f.write("property %s: obligations not discharged; no failing input found on the real code\n" % prop)
            for o in undecided[:40]: f.write("obligation: %s\n  %s: %s\n" % (o["name"], o["status"], o.get("detail", "")))
            for o in refuted[:40]: f.write("obligation: %s\n  counter-model: %s\n" % (o["name"], o["detail"]))
            for r in replays: f.write("replayed: %s\n" % json.dumps(r))
        violations.append((p, " no-failing-input-found"))
    nd = sum(1 for n in byname.values() if n["status"] == "proved")
    C = {}
    try:
        src = open("%s/contracts/%s.py" % (VERIF, prop)).read()
        for node in ast.parse(src).body:
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
                try: C[{"TRUSTED": "trusted", "BOUNDED_NOTE": "bnote", "LEVEL": "level"}[node.targets[0].id]] = ast.literal_eval(node.value)
                except (KeyError, ValueError): pass
    except OSError: pass
    level = C.get("level", "proof")
    assumed = sorted({a for r in results for a in r.get("assumed", [])})
    trusted = ["clang-18 front end and opt-18 (sroa, early-cse, simplifycfg, loop-simplify): C++ to LLVM IR", "engine/ (irdump.cpp, core.py: IR semantics and VC generation)", "z3 / cvc5"] + assumed + C.get("trusted", [])
    bystat = {}
    for n in byname.values():
        if n["status"] == "proved":
            for b in n["by"]: bystat[b] = bystat.get(b, 0) + 1
    coverage = {
        "obligations": len(byname), "discharged": nd,
        "checker_cmd": "python3 check.py %s (VC generation over LLVM IR of /repo, z3 %s)" % (prop, "API"),
        "trusted_base": trusted,
        "vc_paths": len(obls), "discharged_by_back_end": bystat,
        "solver_queries": sum(r.get("queries", 0) for r in results), "solver_s": round(sum(r.get("solver_s", 0) for r in results), 2),
        "functions_under_contract": sorted({f for r in results for f in r.get("functions", [])}),
        "functions_executed_in_place": sorted({f for r in results for f in r.get("inlined", [])})[:200],
        "undischarged": [{"name": o["name"], "status": o["status"], "detail": str(o.get("detail", ""))[:300]} for o in (refuted + undecided)][:40],
        "units": [{"unit": r["unit"], "obligations": len(r["obligations"]), "wall_s": r.get("wall"), "error": r["error"]} for r in results],
        "obligation_names": sorted(byname)[:400],
        "bounded_stand_in": {"what": C.get("bnote", ""), "counted_as_proved": False, "evaluations": cov["evaluations"], "distinct_nontrivial": cov["distinct_nontrivial"], "samples": cov["samples"]},
        "solver_counterexample_replays": replays,
    }
    if level != "proof":
        coverage["evaluations"] = cov["evaluations"]; coverage["distinct_nontrivial"] = cov["distinct_nontrivial"]
        coverage["rule"] = C.get("bnote", ""); coverage["samples"] = cov["samples"]; coverage["explanation"] = C.get("bnote", "")
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": coverage, "assumptions": trusted,
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f: json.dump(ev, f, indent=1)
    print("property=%s obligations=%d discharged=%d vc_paths=%d bounded_cases=%d wall=%.1fs" % (prop, len(byname), nd, len(obls), cov["evaluations"], time.time() - t0))
    for o in undecided: print("not discharged: property=%s obligation=%s (%s)" % (prop, o["name"], str(o.get("detail", ""))[:200]))
    if violations:
        for o in refuted[:10]: print("refuted obligation: " + o["name"])
        for f, label in real[:5]: print("failing input [%s]: %s" % (label, f[:400]))
        for p, sfx in violations: print("VIOLATION property=%s replay=%s%s" % (prop, p, sfx))
        sys.exit(1)
    sys.exit(0)

if __name__ == "__main__":
    main()
