"""F02 ASCII85."""
from engine.api import *
from contracts.common import *
from contracts.filtcommon import *
TUS = ["private/PdfFiltersPrivate.cpp", "private/PdfDeclarationsPrivate.cpp"]
LEVEL = "proof"
BOUNDED_NOTE = "native differential search: every 0-3 byte input over representative bytes and every group of 4 over a smaller set for the encoder, every text of up to 6 characters over {!,u,z,~,>,space,v,5} for the decoder, every way to cut them into blocks, seeded random longer ones"
TRUSTED = [
  "PdfFilter::Begin/Block/End wrappers forward to the Impl functions (exercised natively, not under contract)",
]
UNITS, BOUNDED, proof, bounded = registry()
CLS = "mm::PdfAscii85Filter"
C85 = BV(85, 32)
P85 = [85 ** 4, 85 ** 3, 85 ** 2, 85, 1]
def digits(t):
    """base-85 digits of a 32-bit word, most significant first"""
    q = [t]
    for _ in range(4): q.append(z3.UDiv(q[-1], C85))
    return [z3.URem(q[4 - i], C85) for i in range(5)]
def ch(d): return z3.Extract(7, 0, d) + u8(33)
def emit(o, t, n):
    for d in digits(t)[:n]: o = snoc(o, simp(ch(d)))
    return o
def bytes_be(t, n): return [z3.Extract(31 - 8 * i, 24 - 8 * i, t) for i in range(n)]
def snocs(o, bs):
    for b in bs: o = snoc(o, b)
    return o
# ---- encoder: state (out, cnt, word)
def enc_step(s, b):
    o, cnt, t = s
    w = z3.ZeroExt(24, b)
    t2 = t | (w << z3.If(cnt == 0, BV(24, 32), z3.If(cnt == 1, BV(16, 32), z3.If(cnt == 2, BV(8, 32), BV(0, 32)))))
    return ite(cnt == 3, [z3.If(t2 == 0, snoc(o, u8(ord('z'))), emit(o, t2, 5)), BV(0, 32), BV(0, 32)], [o, cnt + 1, t2])
def enc_end(s):
    o, cnt, t = s
    return z3.If(cnt == 0, o, z3.If(cnt == 1, emit(o, t, 2), z3.If(cnt == 2, emit(o, t, 3), emit(o, t, 4))))
# ---- decoder: state (out, cnt, word, em, err)
def is85(b): return inrange(b, '!', 'u')
def skip85(b): return z3.Or(*[b == u8(x) for x in (0, 8, 9, 10, 12, 13, 32, 127)])
def dec_step(s, b):
    o, cnt, t, em, err = s
    T, F = z3.BoolVal(True), z3.BoolVal(False)
    bad = [o, cnt, t, em, T]
    d = z3.ZeroExt(24, b - u8(33))
    pw = z3.If(cnt == 0, BV(P85[0], 32), z3.If(cnt == 1, BV(P85[1], 32), z3.If(cnt == 2, BV(P85[2], 32), z3.If(cnt == 3, BV(P85[3], 32), BV(1, 32)))))
    t2 = t + d * pw
    dig = ite(cnt == 4, [snocs(o, bytes_be(t2, 4)), BV(0, 32), BV(0, 32), em, F], [o, cnt + 1, t2, em, F])
    z = ite(cnt == 0, [snocs(o, [u8(0)] * 4), cnt, t, em, F], bad)
    norm = ite(b == u8(ord('~')), [o, cnt, t, BV(1, 32), F], ite(b == u8(ord('z')), z, ite(skip85(b), [o, cnt, t, em, F], ite(is85(b), dig, bad))))
    return ite(z3.Or(err, em == 2), s, ite(em == 1, ite(b == u8(ord('>')), [o, cnt, t, BV(2, 32), F], bad), norm))
def fin(s): return z3.Or(s[4], s[3] == 2)
def dec_step_f(s, b):
    """with an explicit 'finished' flag: end marker seen or error"""
    n = dec_step(s[:5], b)
    return n + [fin(n)]
def dec_end(s):
    o, cnt, t = s[0], s[1], s[2]
    return z3.If(z3.ULE(cnt, 1), o, z3.If(cnt == 2, snocs(o, bytes_be(t + P85[1], 1)), z3.If(cnt == 3, snocs(o, bytes_be(t + P85[2], 2)), snocs(o, bytes_be(t + P85[3], 3)))))
def wf(cnt, t, em): return z3.And(z3.ULE(cnt, 4), z3.Implies(cnt == 0, t == 0), z3.ULE(em, 2))

def conc(st, this): return st.fld(this, CLS, "m_count"), st.fld(this, CLS, "m_tuple")
def conc3(st, this): return conc(st, this) + (st.fld(this, CLS, "m_EndMarkerLen"),)

def use_encodetuple(e, out):
    F = find_opt(e.m, CLS + "::EncodeTuple")
    if F is None: return
    def h(e, s, a, i):
        c = simp(a[2])
        e.prove("EncodeTuple/pre/1 to 4 bytes", s, z3.And(z3.UGE(c, 1), z3.ULE(c, 4)))
        def alt(n):
            def f(x): x.ghost[("out", out.rid)] = emit(x.ghost[("out", out.rid)], a[1], n + 1)
            return (c == n, f)
        return Fork([alt(n) for n in (1, 2, 3, 4)])
    e.contracts[F] = h

@proof("EncodeTuple")
def enctup(u):
    for n in (1, 2, 3, 4):
        e, st, this, out = filt_setup(u, CLS)
        t = z3.BitVec("t", 32); o0 = stream_val(st, out)
        ps = e.run(u.m.find(CLS + "::EncodeTuple"), [this, t, BV(n, 32)], st)
        finals(e, ps, "EncodeTuple"); nothrow(e, ps, "EncodeTuple")
        for p in ps: e.prove("EncodeTuple/post/writes the first %d base-85 digits" % (n + 1), p, stream_val(p, out) == emit(o0, t, n + 1))

@proof("begin")
def beg(u):
    e, st, this, out = filt_setup(u, CLS)
    for fn, args in (("BeginEncodeImpl", []), ("BeginDecodeImpl", [NULL])):
        ps = e.run(u.m.find(CLS + "::" + fn), [this] + args, st)
        finals(e, ps, fn); nothrow(e, ps, fn)
        for p in ps:
            c, t, em = conc3(p, this)
            e.prove(fn + "/post/initial state", p, z3.And(c == 0, t == 0, em == 0 if "Decode" in fn else z3.BoolVal(True)))

@proof("encode block")
def enc(u):
    e, st, this, out = filt_setup(u, CLS); use_encodetuple(e, out)
    n, buf, arr = inbuf(st)
    c0, t0 = conc(st, this); st.assume(z3.ULE(c0, 3)); st.assume(z3.Implies(c0 == 0, t0 == 0))
    fold = Fold([stream_val(st, out), c0, t0], enc_step, arr, 0, n)
    def inv(h):
        c, t = conc(h.st, this); f = fold.at(h.k)
        return [("output", stream_val(h.st, out) == f[0]), ("partial group", z3.And(c == f[1], t == f[2], z3.ULE(c, 3), z3.Implies(c == 0, t == 0)))]
    ps = e.run(u.m.find(CLS + "::EncodeBlockImpl"), [this, buf, n], st, [LoopSpec(inv=inv, facts=lambda h: fold.facts(h.k))])
    finals(e, ps, "EncodeBlockImpl"); nothrow(e, ps, "EncodeBlockImpl")
    for p in ps:
        c, t = conc(p, this); f = fold.at(n)
        e.prove("EncodeBlockImpl/post/output and carried group are the specification's", p, z3.And(stream_val(p, out) == f[0], c == f[1], t == f[2], z3.ULE(c, 3)))

@proof("encode end")
def ence(u):
    e, st, this, out = filt_setup(u, CLS); use_encodetuple(e, out)
    c0, t0 = conc(st, this); st.assume(z3.ULE(c0, 3)); o0 = stream_val(st, out)
    ps = e.run(u.m.find(CLS + "::EndEncodeImpl"), [this], st)
    finals(e, ps, "EndEncodeImpl"); nothrow(e, ps, "EndEncodeImpl")
    for p in ps:
        # an end marker may follow, the decoder must accept it
        e.prove("EndEncodeImpl/post/writes the partial group", p, z3.Or(stream_val(p, out) == enc_end([o0, c0, t0]),
                stream_val(p, out) == snoc(snoc(enc_end([o0, c0, t0]), u8(ord('~'))), u8(ord('>')))))

@proof("decode block")
def dec(u):
    e, st, this, out = filt_setup(u, CLS)
    n, buf, arr = inbuf(st)
    c0, t0, em0 = conc3(st, this); st.assume(wf(c0, t0, em0))
    s0 = [stream_val(st, out), c0, t0, em0, z3.BoolVal(False)]
    fold = Fold(s0 + [fin(s0)], dec_step_f, arr, 0, n)
    def inv(h):
        c, t, em = conc3(h.st, this); f = fold.at(h.k)
        return [("output", stream_val(h.st, out) == f[0]), ("partial group", z3.And(c == f[1], t == f[2], em == f[3])),
                ("no error so far", z3.Not(f[4])), ("range", z3.And(wf(c, t, em), f[5] == fin(f)))]
    ps = e.run(u.m.find(CLS + "::DecodeBlockImpl"), [this, buf, n], st, [LoopSpec(inv=inv, facts=lambda h: fold.facts(h.k) + fold.final(5, h.k))])
    finals(e, ps, "DecodeBlockImpl")
    f = fold.at(n)
    for p in ps:
        if p.kind == "throw":
            e.prove("DecodeBlockImpl/post/an error is raised only for text the specification rejects", p, f[4])
        else:
            c, t, em = conc3(p, this)
            e.prove("DecodeBlockImpl/post/text the specification rejects raises an error", p, z3.Not(f[4]))
            e.prove("DecodeBlockImpl/post/output is the specification's", p, stream_val(p, out) == f[0])
            e.prove("DecodeBlockImpl/post/state carried to the next block", p, z3.And(c == f[1], t == f[2], em == f[3], wf(c, t, em)))

@proof("decode end")
def dece(u):
    e, st, this, out = filt_setup(u, CLS)
    c, t, em = conc3(st, this); st.assume(wf(c, t, em)); o0 = stream_val(st, out)
    ps = e.run(u.m.find(CLS + "::EndDecodeImpl"), [this], st)
    finals(e, ps, "EndDecodeImpl"); nothrow(e, ps, "EndDecodeImpl")
    for p in ps: e.prove("EndDecodeImpl/post/final group", p, stream_val(p, out) == dec_end([o0, c, t]))

@proof("lemmas")
def lem(u):
    e = u.engine("lemma/")
    o = z3.Const("o", Bytes); cnt, t, em = z3.BitVec("cnt", 32), z3.BitVec("t", 32), z3.BitVec("em", 32); err = z3.Bool("err"); b = z3.BitVec("b", 8)
    s = [o, cnt, t, em, err]
    lemma_final(e, "end marker or error is final", dec_step_f, s + [fin(s)], 5)
    F = z3.BoolVal(False); Z = BV(0, 32)
    d = digits(t)
    # base 85: division with remainder, once, then by substitution
    x = z3.BitVec("x", 32)
    e.prove("division with remainder: quotient range", None, z3.ULE(z3.UDiv(x, C85), BV(0xffffffff // 85, 32)))
    e.prove("division with remainder: remainder range", None, z3.ULT(z3.URem(x, C85), C85))
    e.timeout = 90000
    e.prove("division with remainder: recomposition", None, x == C85 * z3.UDiv(x, C85) + z3.URem(x, C85))
    # abstract digits/quotients: any numbers satisfying the division lemma
    q = [t] + [z3.BitVec("q%d" % i, 32) for i in range(1, 5)]; r = [z3.BitVec("r%d" % i, 32) for i in range(5)]   # r[i] = q[i] % 85
    H = []
    for i in range(4): H += [q[i] == C85 * q[i + 1] + r[i], z3.ULT(r[i], C85), z3.ULE(q[i + 1], BV(0xffffffff // 85 ** (i + 1), 32))]
    H += [r[4] == q[4], z3.ULT(r[4], C85)]
    dg = [r[4 - i] for i in range(5)]
    e.prove("the last quotient is a digit", None, z3.ULT(z3.UDiv(BV(0xffffffff // 85 ** 3, 32), C85), C85))
    cs = [ch(v) for v in dg]
    st = [o, Z, Z, Z, F]
    sts = [st]
    for c in cs: sts.append(dec_step(sts[-1], c))
    acc = Z
    # stepwise: after i digits the word is the weighted sum (uses only the digit ranges)
    for i in range(4):
        acc = acc + dg[i] * BV(P85[i], 32)
        pre = [o, BV(i, 32), z3.BitVec("w", 32), Z, F]
        nx = dec_step(pre, cs[i])
        e.prove("digit %d is accepted" % i, None, z3.Implies(z3.And(*H), z3.And(nx[0] == o, nx[1] == BV(i + 1, 32), nx[2] == pre[2] + dg[i] * BV(P85[i], 32), nx[3] == Z, z3.Not(nx[4]))))
    pre = [o, BV(4, 32), z3.BitVec("w", 32), Z, F]; nx = dec_step(pre, cs[4])
    e.prove("digit 4 completes the group", None, z3.Implies(z3.And(*H), z3.And(nx[0] == snocs(o, bytes_be(pre[2] + dg[4], 4)), nx[1] == Z, nx[2] == Z, nx[3] == Z, z3.Not(nx[4]))))
    # substituting the quotients one after another is polynomial identity, no hypothesis but the equations
    sub = q[4]
    for i in range(3, -1, -1): sub = C85 * sub + r[i]
    full = sum((dg[i] * BV(P85[i], 32) for i in range(1, 5)), dg[0] * BV(P85[0], 32))
    e.prove("the weighted sum of the digits is the word", None, z3.substitute(full, (r[4], q[4])) == sub)
    nxz = dec_step(st, u8(ord('z')))
    e.prove("z stands for four zero bytes", None, z3.And(nxz[0] == snocs(o, [u8(0)] * 4), nxz[1] == Z, nxz[2] == Z, z3.Not(nxz[4])))
    # final group of c bytes: t has zero low bytes; s = what the dropped digits stand for
    for c in (1, 2, 3):
        P = 85 ** (4 - c); low = BV((1 << 8 * (4 - c)) - 1, 32); sm = z3.BitVec("s", 32)
        v = t - sm + BV(P, 32)
        endst = [o, BV(c + 1, 32), t - sm]
        want = snocs(o, bytes_be(t, c))
        e.prove("a final group of %d bytes decodes to them" % c, None, z3.Implies(z3.And(t & low == 0, z3.ULT(sm, BV(P, 32)), z3.ULE(sm, t)), dec_end(endst) == want))
        # the dropped digits stand for less than 85^(4-c)
        dr = sum((dg[i] * BV(P85[i], 32) for i in range(c + 2, 5)), dg[c + 1] * BV(P85[c + 1], 32)) if c < 4 else Z
        e.prove("the digits dropped from a final group of %d bytes are worth less than the unit of the last digit kept" % c, None, z3.Implies(z3.And(*[z3.ULT(v, C85) for v in dg]), z3.ULT(dr, BV(P, 32))))

@bounded("scenario")
def sc(u):
    for n in range(1, 6):
        e, st, this, out = filt_setup(u, CLS, "enc n=%d " % n)
        st.setfld(this, CLS, "m_count", 0); st.setfld(this, CLS, "m_tuple", 0)
        buf, arr = st.buffer("buf", n); want = Fold([NIL, BV(0, 32), BV(0, 32)], enc_step, arr, 0, n).unrolled(n)
        for p in e.run(u.m.find(CLS + "::EncodeBlockImpl"), [this, buf, BV(n, 64)], st):
            for q in e.run(u.m.find(CLS + "::EndEncodeImpl"), [this], p):
                mdl = e.model(q, stream_val(q, out) != enc_end(want))
                if mdl is not None: u.cases.append("enc:%s:" % mdl_hex(mdl, arr, n))
    for n in (1, 2, 3):
        e, st, this, out = filt_setup(u, CLS, "dec n=%d " % n)
        for f in ("m_count", "m_tuple", "m_EndMarkerLen"): st.setfld(this, CLS, f, 0)
        buf, arr = st.buffer("buf", n); s0 = [NIL, BV(0, 32), BV(0, 32), BV(0, 32), z3.BoolVal(False)]
        want = Fold(s0 + [z3.BoolVal(False)], dec_step_f, arr, 0, n).unrolled(n)
        for p in e.run(u.m.find(CLS + "::DecodeBlockImpl"), [this, buf, BV(n, 64)], st):
            ends = [p] if p.kind == "throw" else e.run(u.m.find(CLS + "::EndDecodeImpl"), [this], p)
            for q in ends:
                bad = z3.Not(want[4]) if q.kind == "throw" else z3.Or(want[4], stream_val(q, out) != dec_end(want))
                mdl = e.model(q, bad)
                if mdl is not None: u.cases.append("dec:%s:" % mdl_hex(mdl, arr, n))
