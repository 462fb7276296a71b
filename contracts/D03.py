"""D03 nesting: the guard's own operations are proved by symbolic execution of their bodies; every function that uses the guard is
then checked against those contracts on its real control flow graph (calls and exceptions included)."""
import os
from engine.api import *
from engine.typestate import *
TUS = ["private/PdfDeclarationsPrivate.cpp", "base/PdfTokenizer.cpp", "base/PdfPostScriptTokenizer.cpp", "base/PdfParser.cpp", "base/PdfParserObject.cpp", "base/PdfXRefStreamParserObject.cpp", "base/PdfNameTree.cpp", "base/PdfOutlines.cpp", "base/PdfPageCollection.cpp"]
LEVEL = "proof"
BOUNDED_NOTE = "native: nesting just below, at and above the limit (arrays, dictionaries, mixed), refused, malformed and truncated inputs in random order, each followed by a probe that the limit is unchanged; cyclic name trees, outlines and page trees; limits other than the default"
TRUSTED = ["no other translation unit uses the guard (names of the guard's functions are searched for in the library's symbols by the native build)", "the depth is below 2^32",
           "virtual calls of the parser reach streams, devices and the object loader, whose own nesting goes through the same guarded functions"]
UNITS, BOUNDED, proof, bounded = registry()
G = "utls::RecursionGuard"
ERR = "mm::PdfErrorCode"
def parts(u):
    ops = {k: u.m.find("%s::%s" % (G, k)) for k in ("RecursionGuard", "~RecursionGuard")}
    seen, todo = {}, list(ops.values())
    while todo:   # helpers of the guard
        n = todo.pop(); f = u.m.fns.get(n)
        if n in seen or f is None or f["decl"]: continue
        seen[n] = f; todo += [callee(I) for I in calls(f) if (callee(I) or "").startswith("_ZN4utls14RecursionGuard")]
    return ops, set(seen)
def counter(u, fns):
    c = set()
    for n, g in u.m.globals.items():
        if not g.get("const") and g.get("size") == 4 and set(accessors(u.m, n)) & fns: c.add(n)
    return c
def state(u):
    from contracts.tokcommon import enum_val
    ops, fns = parts(u); gl = counter(u, fns)
    dep = [g for g in gl if any(g in json_text(u.m.fns[n]) for n in fns if u.m.fns[n]["dem"].startswith(G) and n in set(reach(u, ops["~RecursionGuard"])))]
    mx = [g for g in gl if g not in dep]
    if len(dep) != 1 or len(mx) != 1: raise Unsupported("counter and limit of the guard: %s %s" % (dep, mx))
    return ops, fns, dep[0], mx[0]
def json_text(f):
    import json
    return json.dumps(f["blocks"])
def reach(u, n, seen=None):
    seen = seen if seen is not None else set()
    if n in seen or n not in u.m.fns or u.m.fns[n]["decl"]: return seen
    seen.add(n)
    for I in calls(u.m.fns[n]):
        c = callee(I)
        if c and c.startswith("_ZN4utls14RecursionGuard"): reach(u, c, seen)
    return seen
@proof("guard")
def guard(u):
    from contracts.tokcommon import enum_val
    ops, fns, dep, mx = state(u)
    for k, n in ops.items():
        e = u.engine(""); st = State(e); this = st.new_region("guard", 1); e.intercepts.insert(0, (lambda n_, d: n_.startswith("llvm.threadlocal.address"), lambda en, s, a, i: a[0]))
        D, M = z3.BitVec("depth", 32), z3.BitVec("limit", 32)
        pd, pm = e.gptr(st, dep, 0), e.gptr(st, mx, 0); st.wr(pd, 4, D); st.wr(pm, 4, M)
        what = "%s::%s" % (G, k)
        if k == "RecursionGuard": st.assume(D != BV(2**32 - 1, 32))
        else: st.assume(D != 0)
        ps = e.run(n, [this], st); finals(e, ps, what)
        for p in ps:
            d = p.rd(pd, 4); ob = lambda nm, t: e.prove("%s/post/%s" % (what, nm), p, t)
            ob("the limit is not changed", p.rd(pm, 4) == M)
            if k == "RecursionGuard":
                if p.kind == "throw":
                    ob("raises only beyond the limit", z3.And(z3.UGE(D, M), z3.BoolVal(p.exc.get("code") is not None)))
                    ob("a refused level is not counted", d == D)
                else: ob("within the limit, one level deeper", z3.And(d == D + 1, z3.ULE(d, M)))
            else: ob("does not raise", z3.BoolVal(p.kind != "throw")); ob("one level less", d == D - 1)
    e = u.engine("")
    e.prove("%s/frame/only the guard changes the depth" % G, None, z3.BoolVal(set(x for x in accessors(u.m, dep) if not x.startswith("_ZT")) <= fns))
    e.prove("%s/frame/only objects of the guard call its operations" % G, None, z3.BoolVal(all(not (set(callee(I) for I in calls(u.m.fns[x])) & (fns - set(both(u, ops)))) for x in callers(u.m, fns - set(both(u, ops))) if x not in fns)))
def both(u, ops):
    """all variants of the constructor and destructor"""
    ds = {u.m.fns[n]["dem"] for n in ops.values()}
    return {n for n, f in u.m.fns.items() if f["dem"] in ds}
@proof("balance")
def bal(u):
    ops, fns = parts(u); eff = {}
    for n in both(u, ops): eff[n] = (-1, None) if "~" in u.m.fns[n]["dem"] else (1, 0)
    e = u.engine("")
    users = [n for n in callers(u.m, set(eff)) if n not in fns]
    e.prove("guarded functions/there are some", None, z3.BoolVal(len(users) > 0))
    sites = {}
    for n in users:
        f = u.m.fns[n]; e.fn_under_contract.add(f["dem"]); sites[n] = []
        balance(e, f, eff, f["dem"].replace("mm::", ""), sites[n])
    # nesting: leaving out the calls made one level deeper, no parsing function reaches itself
    graph = {}
    for n, f in u.m.fns.items():
        if f["decl"] or not (f.get("file") or "").startswith(os.environ.get("VERIF_REPO", "/repo")): continue
        cs = [(callee(I), 0) for I in calls(f)] if n not in sites else sites[n]
        graph[n] = sorted({c for c, k in cs if c and k == 0 and c in u.m.fns and not u.m.fns[c]["decl"]})
    full = {}
    for n, f in u.m.fns.items():
        if not f["decl"]: full[n] = sorted({callee(I) for I in calls(f) if callee(I) in u.m.fns and not u.m.fns[callee(I)]["decl"]})
    nest = [set(c) for c in sccs(full) if set(c) & set(users)]   # recursion that involves a guarded function
    e.prove("guarded functions/nested input is read through them", None, z3.BoolVal(bool(nest)))
    for c in nest:
        sub = {n: [x for x in graph.get(n, full[n]) if x in c] for n in c}
        nm = sorted(u.m.fns[x]["dem"].split("(")[0].replace("mm::", "") for x in c & set(users))[0]
        cyc = sccs(sub)
        e.prove("%s/every further level of the recursion is entered with a guard" % nm, None, z3.BoolVal(not cyc))
