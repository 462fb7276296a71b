"""What contract files import."""
import z3
from .core import *
from .models import *
from .models import Bytes, NIL, snoc
from .spec import *
class Registry(dict): pass
def registry():
    U, B = {}, {}
    def proof(name):
        def d(f): U[name] = f; return f
        return d
    def bounded(name):
        def d(f): B[name] = f; return f
        return d
    return U, B, proof, bounded
def finals(e, ps, what, reach=True):
    """Every run ends by returning normally (or throwing, checked by the caller); at least one end is reachable."""
    e.prove(what + "/terminates with a result on some path", None, z3.BoolVal(len(ps) > 0))
    if reach and ps:
        ok = False
        for p in ps:
            s = z3.Solver(); s.set("timeout", 5000)
            for c in list(p.pc) + list(p.facts): s.add(c)
            if s.check() != z3.unsat: ok = True; break
        e.prove(what + "/post-state not vacuous", None, z3.BoolVal(ok))
def nothrow(e, ps, what):
    for p in ps:
        if p.kind == "throw": e.prove(what + "/post/does not raise", p, z3.BoolVal(False))
def mdl_bytes(mdl, arr, n, off=0):
    return bytes(mdl.eval(z3.Select(arr, BV(off + i, 64)), model_completion=True).as_long() for i in range(n))
def mdl_hex(mdl, arr, n, off=0): return mdl_bytes(mdl, arr, n, off).hex()
def mdl_int(mdl, t): return mdl.eval(t, model_completion=True).as_long()
def const_text(e, s, ptr, n):
    """Python bytes of constant text in memory"""
    n = simp(n)
    if not isc(n): raise Unsupported("text of symbolic length")
    out = []
    for i in range(cval(n)):
        b = e.load(s, padd(ptr, i), 1, check=False)
        if not isc(b): raise Unsupported("symbolic text")
        out.append(cval(b))
    return bytes(out)
def forall(sort_or_w, f, pats=None):
    i = fresh("q", sort_or_w) if not isinstance(sort_or_w, int) else fresh("q", sort_or_w)
    b = f(i)
    return z3.ForAll([i], b, patterns=[z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats(i)]) if pats else z3.ForAll([i], b)
