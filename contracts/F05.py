"""F05 predictors."""
from engine.api import *
from contracts.filtcommon import *
TUS = ["private/PdfFiltersPrivate.cpp", "private/PdfDeclarationsPrivate.cpp"]
LEVEL = "proof"
BOUNDED_NOTE = "native differential search: random rows with every mix of PNG tags, 1-6 columns, 1-4 colors, 1/2/4/8/16 bits, and TIFF with 8 bits, through the Flate decoder and directly, data cut at every position; predicted rows are made by an independent PNG/TIFF encoder"
TRUSTED = [
  "remainder of non-negative integers: uniqueness of Euclidean division (the two recomposition identities are proved)",
  "decode parameters: PdfDictionary::FindKeyAs returns the stored integer or the default (assumed in the constructor proof)",
]
UNITS, BOUNDED, proof, bounded = registry()
CLS = "mm::PdfPredictorDecoder"
I32 = z3.BitVecSort(32)
SREM = z3.Function("srem32", I32, I32, I32)
def sx(i): return z3.SignExt(32, i)
def B(a, i): return z3.Select(a, sx(i))
def paeth(a, b, c):
    A, B_, C = [z3.ZeroExt(24, x) for x in (a, b, c)]
    p = A + B_ - C
    ab = lambda x: z3.If(x < 0, -x, x)
    pa, pb, pc = ab(p - A), ab(p - B_), ab(p - C)
    return z3.If(z3.And(pa <= pb, pa <= pc), a, z3.If(pb <= pc, b, c))
# state: (out, R row being built in place over the row above, A row above, idx, tag, need)
def mkstep(png, bpp, rows):
    def step(s, x):
        o, R, A, idx, tag, need = s
        left = idx >= bpp
        a = z3.If(left, B(R, idx - bpp), u8(0)); b = B(A, idx); c = z3.If(left, B(A, idx - bpp), u8(0))
        avg = z3.Extract(7, 0, z3.LShR(z3.ZeroExt(1, a) + z3.ZeroExt(1, b), 1))
        pred = z3.If(tag == 0, u8(0), z3.If(tag == 1, a, z3.If(tag == 2, b, z3.If(tag == 3, avg, paeth(a, b, c)))))
        R2 = z3.Store(R, sx(idx), x + pred)
        end = idx + 1 == rows
        mid = [o, R2, A, idx + 1, tag, z3.BoolVal(False)]
        row = [APP(o, R2, BV(0, 64), sx(rows)), R2, R2, BV(0, 32), tag, png]
        return ite(need, [o, R, A, idx, z3.ZeroExt(24, x), z3.BoolVal(False)], ite(end, row, mid))
    return step

class Dec:
    def __init__(self, u, prefix, sym=True):
        e, st, this, out = None, None, None, None
        e = u.engine(prefix); self.e = e
        st = State(e); self.st = st
        self.out = out = new_stream(st, "out")
        self.this = this = st.new_obj("this", CLS)
        self.rows = st.fld(this, CLS, "m_Rows"); self.bpp = st.fld(this, CLS, "m_BytesPerPixel")
        self.prev = st.fptr(this, CLS, "m_Prev"); self.ul = st.fptr(this, CLS, "m_UpperLeftPixelComponents")
        str_init(st, self.prev, sx(self.rows)); str_init(st, self.ul, sx(self.bpp))
        st.assume(z3.And(self.rows >= 1, self.bpp >= 1))
        e.srem = lambda a, b: SREM(a, b)
    def arr(self, st, p):
        b = str_buf(st, p); r = self.e.flatten(st, b); return r.arr
    def view(self, st):
        f = lambda n: st.fld(self.this, CLS, n)
        return stream_val(st, self.out), self.arr(st, self.prev), f("m_CurrRowIndex"), f("m_CurrPredictor"), f("m_NextByteIsPredictor"), self.arr(st, self.ul)
def rem_facts(i, b):
    r = SREM(i, b)
    return [z3.Implies(z3.And(i >= 0, b > 0), z3.And(r >= 0, r < b, r <= i, SREM(BV(0, 32), b) == 0,
            z3.Implies(i < BV(0x7fffffff, 32), SREM(i + 1, b) == z3.If(r + 1 == b, BV(0, 32), r + 1)),
            z3.Implies(i < b, r == i)))]

def run_decode(u, kind):
    d = Dec(u, kind + ": "); e, st = d.e, d.st
    png = z3.BoolVal(kind == "png")
    st.assume(st.fld(d.this, CLS, "m_Predictor") == 2 if kind == "tiff" else z3.And(st.fld(d.this, CLS, "m_Predictor") >= 10, st.fld(d.this, CLS, "m_Predictor") <= 15))
    if kind == "tiff": st.assume(st.fld(d.this, CLS, "m_BitsPerComponent") == 8)
    n, buf, arr = inbuf(st)
    o, R0, idx, cp, need, ul = d.view(st)
    A0 = z3.Const("above0", ARR)
    step = mkstep(png, d.bpp, d.rows)
    tag0 = cp - 10 if kind == "png" else BV(1, 32)   # TIFF: every row is 'sub'
    fold = Fold([o, R0, A0, idx, tag0, need], step, arr, 0, n)
    def inv_of(s2, f):
        o, R, idx, cp, need, ul = d.view(s2)
        fo, fR, fA, fi, ft, fn = f
        c = [("output", o == fo), ("row being restored", R == fR), ("position", z3.And(idx == fi, need == fn, idx >= 0, idx < d.rows, z3.Implies(need, idx == 0)))]
        if kind == "png":
            c.append(("row tag", z3.Or(need, z3.And(cp == ft + 10, ft >= 0, ft <= 4))))
            c.append(("tag range", z3.And(cp >= 10, cp <= 14)))
            c.append(("row above", forall(64, lambda i: z3.Implies(i >= sx(fi), z3.Select(fR, i) == z3.Select(fA, i)), lambda i: [z3.Select(fR, i), z3.Select(fA, i)])))
            r = SREM(idx, d.bpp)
            def ulinv(j):
                p = sx(idx) - sx(r) + j - z3.If(j < sx(r), BV(0, 64), sx(d.bpp))
                return z3.Implies(z3.And(j >= 0, j < sx(d.bpp), p >= 0, z3.Not(need), ft == 4), z3.Select(ul, j) == z3.Select(fA, p))
            c.append(("upper left bytes", forall(64, ulinv, lambda j: [z3.Select(ul, j)])))
        else: c.append(("mode", z3.And(cp == 2, z3.Not(need), ft == 1)))
        return c
    for nm, c in inv_of(st, [o, R0, A0, idx, tag0, need]): st.assume(c)
    def facts(h):
        k = h.k; f = fold.at(k)
        valid = [z3.Implies(z3.And(f[5], z3.ULT(k, n)), z3.ULE(z3.Select(arr, k), u8(4)))] if kind == "png" else []
        return fold.facts(k) + valid + rem_facts(d.view(h.st)[2], d.bpp)
    def hints(h):
        if kind != "png": return []
        f = fold.at(h.k); _, R, idx, cp, need, ul = d.view(h.st); i = sx(idx)
        return [B(R, idx) == B(f[2], f[3]), z3.Implies(z3.And(z3.Not(need), idx >= d.bpp, f[4] == 4), z3.Select(ul, sx(SREM(idx, d.bpp))) == B(f[2], f[3] - d.bpp))]
    ps = e.run(u.m.find(CLS + "::Decode"), [d.this, buf, n, d.out], st, [LoopSpec(inv=lambda h: inv_of(h.st, fold.at(h.k)), facts=facts, hints=hints)])
    finals(e, ps, "Decode"); nothrow(e, ps, "Decode")
    f = fold.at(n)
    for p in ps:
        e.prove("Decode/post/output is the rows the specification restores", p, stream_val(p, d.out) == f[0])
        for nm, c in inv_of(p, f): e.prove("Decode/post/state carried to the next block: " + nm, p, c)
@proof("decode png")
def png(u): run_decode(u, "png")
@proof("decode tiff")
def tiff(u): run_decode(u, "tiff")
@proof("decode none")
def none(u):
    d = Dec(u, "none: "); e, st = d.e, d.st
    st.assume(st.fld(d.this, CLS, "m_Predictor") == 1)
    n, buf, arr = inbuf(st); o = stream_val(st, d.out)
    ps = e.run(u.m.find(CLS + "::Decode"), [d.this, buf, n, d.out], st); finals(e, ps, "Decode"); nothrow(e, ps, "Decode")
    for p in ps: e.prove("Decode/post/data is passed through", p, stream_val(p, d.out) == z3.If(n == 0, o, APP(o, arr, BV(0, 64), n)))
@proof("decode any data stays in bounds")
def safe(u):
    d = Dec(u, "any data: "); e, st = d.e, d.st
    n, buf, arr = inbuf(st)
    def ok(s2):
        i = s2.fld(d.this, CLS, "m_CurrRowIndex"); return z3.And(i >= 0, i < d.rows)
    st.assume(ok(st))
    ps = e.run(u.m.find(CLS + "::Decode"), [d.this, buf, n, d.out], st, [LoopSpec(inv=lambda h: [("position inside the row", ok(h.st))], facts=lambda h: rem_facts(h.st.fld(d.this, CLS, "m_CurrRowIndex"), d.bpp))])
    finals(e, ps, "Decode")
    for p in ps: e.prove("Decode/post/position inside the row", p, ok(p))
@proof("parameters")
def ctor(u):
    e = u.engine(""); st = State(e)
    this = st.new_region("this", u.m.sizeof(CLS), sym=False)
    dic = st.new_region("dict", 8)
    P = {k: z3.BitVec(k, 64) for k in ("Predictor", "Colors", "BitsPerComponent", "Columns", "EarlyChange")}
    seen = {}
    def findkey(en, s, a, i):
        k = const_text(en, s, a[2], a[1]) if isinstance(a[2], Ptr) and not isinstance(a[1], Ptr) else const_text(en, s, en.load(s, padd(a[1], 8), 8, "ptr"), en.load(s, a[1], 8))
        k = k.decode(); seen[k] = a[-1]
        if k not in P: raise Unsupported("decode parameter " + k)
        return P[k]
    e.intercepts.insert(0, (rx(r"PdfDictionary::FindKeyAs<long"), findkey))
    bits, colors, cols = P["BitsPerComponent"], P["Colors"], P["Columns"]
    for v, hi in ((bits, 32), (colors, 1024), (cols, 60000)): st.assume(z3.And(v >= 1, v <= hi))
    st.assume(z3.And(P["Predictor"] >= 1, P["Predictor"] <= 15))
    ps = e.run(u.m.find(CLS + "::PdfPredictorDecoder"), [this, dic], st)
    finals(e, ps, "PdfPredictorDecoder"); nothrow(e, ps, "PdfPredictorDecoder")
    lo = lambda v: z3.Extract(31, 0, v)
    for p in ps:
        f = lambda n: p.fld(this, CLS, n)
        up8 = lambda v: z3.UDiv(v + 7, BV(8, 64))
        e.prove("PdfPredictorDecoder/post/bytes per pixel, at least one", p, sx(f("m_BytesPerPixel")) == up8(bits * colors))
        e.prove("PdfPredictorDecoder/post/bytes per row, rounded up", p, sx(f("m_Rows")) == up8(bits * colors * cols))
        e.prove("PdfPredictorDecoder/post/row starts", p, z3.And(f("m_CurrRowIndex") == 0, f("m_NextByteIsPredictor") == (P["Predictor"] >= 10), f("m_Predictor") == lo(P["Predictor"]), f("m_BitsPerComponent") == lo(bits),
                z3.Implies(P["Predictor"] < 10, f("m_CurrPredictor") == lo(P["Predictor"]))))
        pv, ul = p.fptr(this, CLS, "m_Prev"), p.fptr(this, CLS, "m_UpperLeftPixelComponents")
        e.prove("PdfPredictorDecoder/post/buffers have the row and pixel size", p, z3.And(str_len(p, pv) == sx(f("m_Rows")), str_len(p, ul) == sx(f("m_BytesPerPixel"))))
        j = z3.BitVec("j", 64); r = e.flatten(p, str_buf(p, pv))
        e.prove("PdfPredictorDecoder/post/the row above the first is zero", p, z3.Implies(z3.ULT(j, sx(f("m_Rows"))), z3.Select(r.arr, j) == 0))
@proof("lemmas")
def lem(u):
    e = u.engine("lemma/")
    x, b, q, r = z3.Ints("x b q r")
    H = z3.And(b > 0, x >= 0, x == b * q + r, r >= 0, r < b)
    e.prove("successor without carry recomposes", None, z3.Implies(z3.And(H, r + 1 != b), z3.And(x + 1 == b * q + (r + 1), r + 1 < b)))
    e.prove("successor with carry recomposes", None, z3.Implies(z3.And(H, r + 1 == b), x + 1 == b * q + b))
