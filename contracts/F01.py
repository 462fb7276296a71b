"""F01 ASCIIHex."""
from engine.api import *
from contracts.common import *
TUS = ["private/PdfFiltersPrivate.cpp", "private/PdfDeclarationsPrivate.cpp", "base/PdfTokenizer.cpp"]
LEVEL = "proof"
BOUNDED_NOTE = "native differential search: every text of up to 4 (thorough 5) characters over {0,4,f,9,A,F,a,>,space,LF} with every way to cut it into blocks, every digit pair with every white space byte, all 1- and 2-byte inputs for the encoder, seeded random longer ones"
TRUSTED = [
  "PdfFilter::Begin/Block/End wrappers forward to the Impl functions (exercised natively, not under contract)",
]
UNITS, BOUNDED, proof, bounded = registry()
CLS = "mm::PdfHexFilter"

def setup(u, prefix=""):
    e = u.engine(prefix)
    st = State(e)
    use_hexvalue(e); use_charclass(e)
    this = st.new_obj("this", CLS)
    out = new_stream(st, "out"); st.setfld(this, "mm::PdfFilter", "m_OutputStream", out)
    return e, st, this, out
def inbuf(st, u, name="buf"):
    n = z3.BitVec("n", 64); st.assume(z3.ULE(n, BV(1 << 40, 64)))
    buf, arr = st.buffer(name, n)
    return n, buf, arr

# ---- specification -----------------------------------------------------------------------------------
def enc_step(s, b):
    o, = s
    return [snoc(snoc(o, hexdigit(z3.LShR(b, 4))), hexdigit(b & 15))]
# decoder state: (out, have: a first digit is pending, hi: its value, eod)
def dec_step(s, b):
    o, have, hi, eod = s
    skip = z3.Or(eod, is_white(b)); isend = b == u8(ord('>')); v = hexval(b)
    T, F = z3.BoolVal(True), z3.BoolVal(False)
    return ite(skip, s, ite(isend, [o, have, hi, T], ite(have, [snoc(o, (hi << 4) | v), F, u8(0), F], [o, T, v, F])))
def dec_end(s):
    o, have, hi, eod = s
    return z3.If(have, snoc(o, hi << 4), o)

def concrete(u, st, this):
    """the decoder's own state seen as the specification's"""
    have = z3.Not(st.fld(this, CLS, "m_Low")); hi = st.fld(this, CLS, "m_DecodedByte")
    return have, z3.If(have, hi, u8(0)), st.fld(this, CLS, "m_EndOfData")
def wellformed(have, hi): return z3.If(have, z3.ULT(hi, u8(16)), hi == u8(0))

@proof("helpers")
def helpers(u): prove_hexvalue(u); prove_charclass(u, ["IsWhitespace"])

@proof("encode block")
def enc(u):
    e, st, this, out = setup(u)
    n, buf, arr = inbuf(st, u)
    fold = Fold([stream_val(st, out)], enc_step, arr, 0, n)
    loop = LoopSpec(inv=lambda h: [("output is the encoding of the bytes read", stream_val(h.st, out) == fold.at(h.k)[0])], facts=lambda h: fold.facts(h.k))
    ps = e.run(u.m.find(CLS + "::EncodeBlockImpl"), [this, buf, n], st, [loop])
    finals(e, ps, "EncodeBlockImpl"); nothrow(e, ps, "EncodeBlockImpl")
    for p in ps:
        if p.kind == "ret": e.prove("EncodeBlockImpl/post/two digits per byte, high first", p, stream_val(p, out) == fold.at(n)[0])

@proof("begin decode")
def beg(u):
    e, st, this, out = setup(u)
    ps = e.run(u.m.find(CLS + "::BeginDecodeImpl"), [this, NULL], st)
    finals(e, ps, "BeginDecodeImpl")
    for p in ps:
        have, hi, eod = concrete(u, p, this)
        e.prove("BeginDecodeImpl/post/initial state", p, z3.And(z3.Not(have), z3.Not(eod), hi == u8(0)))

@proof("decode block")
def dec(u):
    e, st, this, out = setup(u)
    n, buf, arr = inbuf(st, u)
    have, hi, eod = concrete(u, st, this)
    st.assume(wellformed(have, hi))
    i = z3.BitVec("i", 64)
    valid = lambda b: z3.Or(is_hex(b), is_white(b), b == u8(ord('>')))
    fold = Fold([stream_val(st, out), have, hi, eod], dec_step, arr, 0, n)
    def facts(h):
        # precondition: the text consists of hex digits, white space and '>' (before the end marker)
        return fold.facts(h.k) + [z3.Implies(z3.And(z3.ULT(h.k, n), z3.Not(fold.at(h.k)[3])), valid(z3.Select(arr, h.k)))] + fold.final(3, h.k)
    def inv(h):
        a, b, c = concrete(u, h.st, this); f = fold.at(h.k)
        return [("output", stream_val(h.st, out) == f[0]), ("pending digit", z3.And(a == f[1], b == f[2])), ("end of data", c == f[3]), ("pending digit range", wellformed(a, b))]
    ps = e.run(u.m.find(CLS + "::DecodeBlockImpl"), [this, buf, n], st, [LoopSpec(inv=inv, facts=facts)])
    finals(e, ps, "DecodeBlockImpl")
    for p in ps:
        if p.kind != "ret": e.prove("DecodeBlockImpl/post/valid text is accepted", p, z3.BoolVal(False)); continue
        a, b, c = concrete(u, p, this); f = fold.at(n)
        e.prove("DecodeBlockImpl/post/output is the specification's", p, stream_val(p, out) == f[0])
        e.prove("DecodeBlockImpl/post/state carried to the next block", p, z3.And(a == f[1], b == f[2], c == f[3], wellformed(a, b)))

@proof("end decode")
def end(u):
    e, st, this, out = setup(u)
    have, hi, eod = concrete(u, st, this); st.assume(wellformed(have, hi))
    o0 = stream_val(st, out)
    ps = e.run(u.m.find(CLS + "::EndDecodeImpl"), [this], st)
    finals(e, ps, "EndDecodeImpl"); nothrow(e, ps, "EndDecodeImpl")
    for p in ps:
        e.prove("EndDecodeImpl/post/odd last digit is followed by 0", p, stream_val(p, out) == dec_end([o0, have, hi, eod]))

@proof("lemmas")
def lem(u):
    e = u.engine("lemma/")
    o, have, hi, eod = z3.Const("o", Bytes), z3.Bool("have"), z3.BitVec("hi", 8), z3.Bool("eod")
    b = z3.BitVec("b", 8)
    s = [o, have, hi, eod]
    lemma_final(e, "end marker is final", dec_step, s, 3)
    # round trip: from any state without pending digit, decoding the two digits of b appends exactly b
    F = z3.BoolVal(False)
    s0 = [o, F, u8(0), F]
    d = enc_step([NIL], b)[0]
    d2 = Bytes.last(d); d1 = Bytes.last(Bytes.pre(d))
    r = dec_step(dec_step(s0, simp(d1)), simp(d2))
    e.prove("round trip: decoding the code of one byte appends that byte", None, z3.And(r[0] == snoc(o, b), z3.Not(r[1]), r[2] == u8(0), z3.Not(r[3])))
    e.prove("round trip: the end adds nothing after complete pairs", None, dec_end(s0) == o)
    e.prove("the code of one byte is two hex digits", None, z3.And(is_hex(simp(d1)), is_hex(simp(d2)), Bytes.pre(Bytes.pre(d)) == NIL))

@bounded("scenario decode")
def sc(u):
    for n in range(1, 4):
        e, st, this, out = setup(u, "n=%d " % n)
        st.ghost[("out", out.rid)] = NIL
        st.setfld(this, CLS, "m_Low", True); st.setfld(this, CLS, "m_DecodedByte", 0); st.setfld(this, CLS, "m_EndOfData", False)
        buf, arr = st.buffer("buf", n)
        for i in range(n):
            b = z3.Select(arr, BV(i, 64)); st.assume(z3.Or(is_hex(b), is_white(b), b == u8(ord('>'))))
        want = Fold([NIL, z3.BoolVal(False), u8(0), z3.BoolVal(False)], dec_step, arr, 0, n).unrolled(n)
        for p in e.run(u.m.find(CLS + "::DecodeBlockImpl"), [this, buf, BV(n, 64)], st):
            for q in e.run(u.m.find(CLS + "::EndDecodeImpl"), [this], p):
                mdl = e.model(q, stream_val(q, out) != dec_end(want))
                if mdl is not None: u.cases.append("dec:%s:" % mdl_hex(mdl, arr, n))
    for n in range(1, 3):
        e, st, this, out = setup(u, "n=%d " % n)
        st.ghost[("out", out.rid)] = NIL
        buf, arr = st.buffer("buf", n)
        want = Fold([NIL], enc_step, arr, 0, n).unrolled(n)
        for p in e.run(u.m.find(CLS + "::EncodeBlockImpl"), [this, buf, BV(n, 64)], st):
            mdl = e.model(p, stream_val(p, out) != want[0])
            if mdl is not None: u.cases.append("enc:%s:" % mdl_hex(mdl, arr, n))
