"""Runs one proof unit of one property in its own process and prints the obligations as JSON."""
import sys, os, json, time, importlib, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(50000)

class Unit:
    """Handed to each @proof function: engine factory + bookkeeping."""
    def __init__(self, module, name, tier, bounded=False):
        self.m = module; self.name = name; self.tier = tier; self.bounded = bounded; self.engines = []; self.cases = []; self.notes = []
    def engine(self, prefix="", **kw):
        from .core import Engine
        e = Engine(self.m, verbose=os.environ.get("VERIF_VERBOSE") == "1", **kw)
        e.prefix = prefix
        e.bmc = self.bounded
        e.deadline = self.deadline
        self.engines.append(e)
        return e

def run(prop, unit, tier, bounded, budget):
    t0 = time.time()
    from .core import Module, Unsupported, Obligation
    import z3
    from . import build
    res = {"unit": unit, "obligations": [], "error": None, "cases": []}
    u = None
    try:
        C = importlib.import_module("contracts." + prop)
        p = "%s/ir/%s.json" % (build.BUILD, prop)
        m = Module(p) if os.path.exists(p) else None
        if m is None and getattr(C, "TUS", None): raise Unsupported("no IR (compilation failed)")
        u = Unit(m, unit, tier, bounded); u.deadline = time.time() + budget
        fn = (C.BOUNDED if bounded else C.UNITS)[unit]
        fn(u)
    except Unsupported as e:
        res["error"] = "unsupported: %s" % e
    except RecursionError:
        res["error"] = "unsupported: recursion"
    except (KeyError, AttributeError, TypeError, z3.Z3Exception, IndexError, ValueError, AssertionError) as e:
        res["error"] = "unsupported: %s: %s" % (type(e).__name__, str(e)[:300]) + " @ " + traceback.format_exc().strip().splitlines()[-3].strip()
        if os.environ.get("VERIF_VERBOSE"): traceback.print_exc()
    if u is not None:
        res["functions"] = sorted({f for e in u.engines for f in e.fn_under_contract})
        res["inlined"] = sorted({f for e in u.engines for f in e.fn_inlined})
        res["assumed"] = sorted({f for e in u.engines for f in e.assumed})
        res["queries"] = sum(e.nqueries for e in u.engines); res["solver_s"] = round(sum(e.solver_time for e in u.engines), 3)
        # vacuity: every cut loop head must be reachable
        for e in u.engines:
            for nm, (pc, facts) in e.cover.items():
                s = z3.Solver(); s.set("timeout", 5000)
                for c in pc + facts: s.add(c)
                r = s.check(); by = "z3"
                if r == z3.unknown:   # no model of the quantified part found: look at the rest
                    from .core import has_quant
                    s = z3.Solver(); s.set("timeout", 5000)
                    for c in pc + facts:
                        if not has_quant(c): s.add(c)
                    r = s.check(); by = "z3, without quantified hypotheses"
                e.obls.append(Obligation(nm + "/reachable", "proved" if r == z3.sat else "refuted" if r == z3.unsat else "unknown", 0.0, solver=by))
            for o in e.obls:
                res["obligations"].append({"name": o.name, "status": o.status, "s": round(o.secs, 3), "by": o.solver, "detail": o.detail[:600] if o.status != "proved" else ""})
        res["cases"] = u.cases; res["notes"] = u.notes
    if not bounded and not res["obligations"] and not res["error"]: res["error"] = "unsupported: unit generated no obligations"
    res["wall"] = round(time.time() - t0, 2)
    return res

if __name__ == "__main__":
    prop, unit, tier, bounded, budget = sys.argv[1:6]
    r = run(prop, unit, tier, bounded == "bounded", float(budget))
    sys.stdout.write("\n@@RESULT " + json.dumps(r) + "\n")
