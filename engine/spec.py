"""Specification functions: transducers (state machines over bytes) and their folds over a buffer."""
import z3
from .core import *
from .models import Bytes, NIL, snoc, APP

class Fold:
    """state after k bytes of arr[off..off+n) for a step function on tuples of z3 terms.
    In proof mode it is a family of uninterpreted functions of k with its defining equations instantiated
    at the points the proof needs; in bounded mode it is computed."""
    _n = [0]
    def __init__(self, init, step, arr, off, n, bounded=False):
        self.init = list(init); self.step = step; self.arr = arr; self.off = off if not isinstance(off, int) else BV(off, 64); self.n = n
        Fold._n[0] += 1
        self.fs = [z3.Function("fold%d_%d" % (Fold._n[0], i), z3.BitVecSort(64), t.sort()) for i, t in enumerate(self.init)]
    def at(self, k): return [f(k) for f in self.fs]
    def byte(self, k): return z3.Select(self.arr, simp(self.off + k))
    def facts(self, k):
        """defining equations at 0 and at k -> k+1 (only inside the buffer, so k+1 does not wrap)"""
        z = BV(0, 64)
        fs = [f(z) == t for f, t in zip(self.fs, self.init)]
        nxt = self.step(self.at(k), self.byte(k))
        k1 = simp(k + 1)
        fs += [z3.Implies(z3.ULT(k, self.n), f(k1) == t) for f, t in zip(self.fs, nxt)]
        return fs
    def final(self, flag, *ks):
        """Lemma instances: once component `flag` holds at k it holds, with the same state, at every later point
        up to n. Sound only together with lemma_final() for the same step function (its induction step)."""
        out = []
        for k in ks:
            for kk in (k, simp(k + 1)):
                out.append(z3.Implies(z3.And(self.at(kk)[flag], z3.ULE(kk, self.n), z3.UGE(kk, k)), z3.And(*[a == b for a, b in zip(self.at(kk), self.at(self.n))])))
        return out
    def unrolled(self, n):
        st = self.init
        for i in range(n): st = [simp(x) for x in self.step(st, simp(self.byte(BV(i, 64))))]
        return st

def ite(c, a, b):
    """pointwise if-then-else on tuples"""
    return [z3.If(c, x, y) for x, y in zip(a, b)]
def u8(x): return BV(x, 8)
def inrange(b, lo, hi): return z3.And(z3.UGE(b, u8(ord(lo) if isinstance(lo, str) else lo)), z3.ULE(b, u8(ord(hi) if isinstance(hi, str) else hi)))
def is_white(b): return z3.Or(*[b == u8(x) for x in (0, 9, 10, 12, 13, 32)])
def hexval(b):
    return z3.If(inrange(b, '0', '9'), b - u8(48), z3.If(inrange(b, 'A', 'F'), b - u8(55), b - u8(87)))
def is_hex(b): return z3.Or(inrange(b, '0', '9'), inrange(b, 'A', 'F'), inrange(b, 'a', 'f'))
def hexdigit(n): return z3.If(z3.ULT(n, u8(10)), n + u8(48), n + u8(55))

def lemma_final(e, name, step, state, flag, b=None):
    """Induction step of Fold.final: a step taken when the flag holds changes nothing."""
    b = z3.BitVec("b", 8) if b is None else b
    nx = step(state, b)
    e.prove(name + ": a step after it changes nothing", None, z3.Implies(state[flag], z3.And(*[x == y for x, y in zip(nx, state)])))
