"""F03 RunLength."""
from engine.api import *
from contracts.filtcommon import *
TUS = ["private/PdfFiltersPrivate.cpp", "private/PdfDeclarationsPrivate.cpp"]
LEVEL = "proof"
BOUNDED_NOTE = "native differential search: all byte strings of length 0-3 over 14 representative values with every way to cut them, every length byte with full, short and over-long data, seeded random mixes of runs and literals cut at random"
TRUSTED = [
  "PdfFilter::Begin/Block/End wrappers forward to the Impl functions (exercised natively, not under contract)",
]
UNITS, BOUNDED, proof, bounded = registry()
CLS = "mm::PdfRLEFilter"
# rep(s, b, k) = s followed by k times b, by its defining equations
REP = z3.Function("rep", Bytes, z3.BitVecSort(8), z3.BitVecSort(64), Bytes)
def rep_facts(s, b, k): return [REP(s, b, BV(0, 64)) == s, z3.Implies(z3.ULT(k, BV(256, 64)), REP(s, b, simp(k + 1)) == snoc(REP(s, b, k), b))]
# state: (out, mode) with mode 0 length byte expected, 1..128 literal bytes left, 129..255 repeat, 256 end
def step(s, b, rep=lambda o, b, k: REP(o, b, k)):
    o, m = s
    w = z3.ZeroExt(24, b)
    first = [o, z3.If(z3.ULT(w, 128), w + 1, z3.If(w == 128, BV(256, 32), w))]
    lit = [snoc(o, b), m - 1]
    run = [rep(o, b, z3.ZeroExt(32, BV(257, 32) - m)), BV(0, 32)]
    return ite(m == 256, s, ite(m == 0, first, ite(z3.ULE(m, 128), lit, run)))
def stepf(s, b):
    n = step(s[:2], b); return n + [n[1] == 256]
def wf(m): return z3.ULE(m, 256)

@proof("begin")
def beg(u):
    e, st, this, out = filt_setup(u, CLS)
    ps = e.run(u.m.find(CLS + "::BeginDecodeImpl"), [this, NULL], st)
    finals(e, ps, "BeginDecodeImpl"); nothrow(e, ps, "BeginDecodeImpl")
    for p in ps: e.prove("BeginDecodeImpl/post/initial state", p, p.fld(this, CLS, "m_CodeLen") == 0)

@proof("decode block")
def dec(u):
    e, st, this, out = filt_setup(u, CLS)
    n, buf, arr = inbuf(st)
    m0 = st.fld(this, CLS, "m_CodeLen"); st.assume(wf(m0))
    fold = Fold([stream_val(st, out), m0, m0 == 256], stepf, arr, 0, n)
    def inv(h):
        m = h.st.fld(this, CLS, "m_CodeLen"); f = fold.at(h.k)
        return [("output", stream_val(h.st, out) == f[0]), ("mode", z3.And(m == f[1], wf(m), f[2] == (m == 256)))]
    outer = LoopSpec(inv=inv, facts=lambda h: fold.facts(h.k) + fold.final(2, h.k), name="bytes")
    def cur(h): return z3.Select(arr, h.st.ghost[("loopk", "bytes")])
    inner = LoopSpec(inv=lambda h: [("repeated so far", stream_val(h.st, out) == REP(stream_val(h.st0, out), cur(h), h.k))],
                     facts=lambda h: rep_facts(stream_val(h.st0, out), cur(h), h.k), depth=1, name="run")
    ps = e.run(u.m.find(CLS + "::DecodeBlockImpl"), [this, buf, n], st, [outer, inner])
    finals(e, ps, "DecodeBlockImpl"); nothrow(e, ps, "DecodeBlockImpl")
    f = fold.at(n)
    for p in ps:
        m = p.fld(this, CLS, "m_CodeLen")
        e.prove("DecodeBlockImpl/post/output is the specification's", p, stream_val(p, out) == f[0])
        e.prove("DecodeBlockImpl/post/state carried to the next block", p, z3.And(m == f[1], wf(m)))

@proof("lemmas")
def lem(u):
    e = u.engine("lemma/")
    o = z3.Const("o", Bytes); m = z3.BitVec("m", 32); b = z3.BitVec("b", 8)
    lemma_final(e, "end marker is final", stepf, [o, m, m == 256], 2)
    a = step([o, BV(0, 32)], b)
    L = z3.ZeroExt(24, b)
    e.prove("a length byte L < 128 announces L+1 literal bytes", None, z3.Implies(z3.ULT(b, u8(128)), z3.And(a[0] == o, a[1] == L + 1)))
    k = z3.BitVec("k", 32); l = step([o, k], b)
    e.prove("a literal byte is copied and counted", None, z3.Implies(z3.And(z3.UGT(k, 0), z3.ULE(k, 128)), z3.And(l[0] == snoc(o, b), l[1] == k - 1)))
    c = z3.BitVec("c", 8); r = step([o, a[1]], c)
    e.prove("a length byte L > 128 repeats the next byte 257-L times", None, z3.Implies(z3.UGT(b, u8(128)), z3.And(r[0] == REP(o, c, z3.ZeroExt(32, BV(257, 32) - L)), r[1] == 0)))
    e.prove("a length byte 128 ends the data", None, z3.Implies(b == u8(128), a[1] == 256))

@bounded("scenario")
def sc(u):
    for n in (1, 2, 3):
        e, st, this, out = filt_setup(u, CLS, "n=%d " % n)
        st.setfld(this, CLS, "m_CodeLen", 0)
        buf, arr = st.buffer("buf", n)
        # keep runs short so that unrolling stays small
        for i in range(n):
            b = z3.Select(arr, BV(i, 64)); st.assume(z3.Or(z3.ULE(b, u8(4)), z3.UGE(b, u8(252)), b == u8(128)))
        def rep(o, b, k):
            alts = [o]
            for _ in range(5): alts.append(snoc(alts[-1], b))
            r = alts[5]
            for i in range(4, -1, -1): r = z3.If(k == i, alts[i], r)
            return r
        want = Fold([NIL, BV(0, 32)], lambda s, b: step(s, b, rep), arr, 0, n).unrolled(n)
        for p in e.run(u.m.find(CLS + "::DecodeBlockImpl"), [this, buf, BV(n, 64)], st):
            mdl = e.model(p, stream_val(p, out) != want[0])
            if mdl is not None: u.cases.append("dec:%s:" % mdl_hex(mdl, arr, n))
