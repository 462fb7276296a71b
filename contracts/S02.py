"""S02 strings."""
from contracts.tokcommon import *
TUS = ["base/PdfString.cpp", "base/PdfTokenizer.cpp", "private/PdfDeclarationsPrivate.cpp"]
LEVEL = "proof"
BOUNDED_NOTE = "native: every byte string of length 0-2 and seeded strings up to 300 bytes over several byte mixes written as literal and as hex string and parsed back, text strings over all planes, and seeded literal texts compared with an independent reader"
TRUSTED = ["std::shared_ptr holds the pointer it was given", "PdfStatefulEncrypt::EncryptTo/DecryptTo map bytes to bytes (E01)"]
UNITS, BOUNDED, proof, bounded = registry()
PS = "mm::PdfString"
ENC = z3.Function("encrypted", Bytes, Bytes); DEC = z3.Function("decrypted", Bytes, Bytes)
SEQ = z3.Function("bytes_of", ARR, z3.BitVecSort(64), z3.BitVecSort(64), Bytes)

# ---- the literal string reader of the specification: out, phase, octal value, nesting depth, bytes consumed, done
NORMAL, ESC, OCT1, OCT2, CR = range(5)
def is_oct(c): return inrange(c, '0', '7')
def unesc(c):
    r = c
    for a, b in (("n", 10), ("r", 13), ("t", 9), ("b", 8), ("f", 12)): r = z3.If(c == ord(a), u8(b), r)
    return r
def rd_init(): return [NIL, BV(NORMAL, 8), BV(0, 8), BV(0, 32), BV(0, 64), z3.BoolVal(False)]
def rd_step(s, c):
    out, ph, oc, dep, pos, done = s
    P = lambda x: BV(x, 8); F, T = z3.BoolVal(False), z3.BoolVal(True)
    d = c - u8(48); p1 = pos + 1; Z = u8(0)
    def normal(o):
        return ite(z3.And(c == ord(")"), dep == 0), [o, P(NORMAL), Z, dep, p1, T], ite(c == ord("\\"), [o, P(ESC), Z, dep, p1, F],
               [snoc(o, c), P(NORMAL), Z, dep + z3.If(c == ord("("), BV(1, 32), z3.If(c == ord(")"), BV(-1, 32), BV(0, 32))), p1, F]))
    esc = ite(is_oct(c), [out, P(OCT1), d, dep, p1, F], ite(c == 13, [out, P(CR), Z, dep, p1, F], ite(c == 10, [out, P(NORMAL), Z, dep, p1, F], [snoc(out, unesc(c)), P(NORMAL), Z, dep, p1, F])))
    o1 = ite(is_oct(c), [out, P(OCT2), (oc << 3) | d, dep, p1, F], normal(snoc(out, oc)))
    o2 = ite(is_oct(c), [snoc(out, (oc << 3) | d), P(NORMAL), Z, dep, p1, F], normal(snoc(out, oc)))
    cr = ite(c == 10, [out, P(NORMAL), Z, dep, p1, F], normal(out))
    r = normal(out)
    for k, v in ((ESC, esc), (OCT1, o1), (OCT2, o2), (CR, cr)): r = ite(ph == k, v, r)
    return ite(done, s, r)
def rd_out(s): return z3.If(z3.And(z3.Not(s[5]), z3.Or(s[1] == OCT1, s[1] == OCT2)), snoc(s[0], s[2]), s[0])

def seq_of(e, s, p, n):
    """the bytes of a view; a view of a whole string is the content of that string"""
    r = s.region(p)
    if r.kind == "str" and r.owner is not None and isc(p.off) and cval(p.off) == 0:
        k = r.owner
        if s.ghost.get(("strbuf",) + k) == p.rid and s.ghost[("strlen",) + k].eq(simp(n)): return s.ghost[("strseq",) + k]
    return append_range(e, s, NIL, p, n)
def capture(e, st):
    """records the string value that is built and the assignment to the variant"""
    st.ghost[("value",)] = NIL; st.ghost[("hex",)] = BV(2, 8); st.ghost[("made",)] = BV(0, 64); st.ghost[("set",)] = BV(0, 64)
    def made(s, seq, hx): s.ghost[("value",)] = simp(seq); s.ghost[("hex",)] = simp(z3.If(tobool(hx), BV(1, 8), BV(0, 8))); s.ghost[("made",)] = simp(s.ghost[("made",)] + 1)
    e.intercepts.insert(0, (rx(r"^mm::PdfString::~PdfString"), lambda en, s, a, i: None))
    def ctor(en, s, a, i): made(s, str_seq(s, a[1]), a[2])
    e.intercepts.insert(0, (rx(r"^mm::PdfString::PdfString\((mm::)?charbuff(_t)?(<.*>)?&&, bool\)"), ctor))
    return made
def capture_variant(e, st, var):
    e.intercepts.insert(0, (rx(r"^mm::PdfVariant::(PdfVariant|~PdfVariant)\("), lambda en, s, a, i: None))
    def assign(en, s, a, i):
        if a[0].rid == var.rid: s.ghost[("set",)] = simp(s.ghost[("set",)] + 1)
        return a[0]
    e.intercepts.insert(0, (rx(r"^mm::PdfVariant::operator="), assign))
def view_of(e, s, p):
    """pointer and length of a bufferview / string_view in memory"""
    try: return e.load(s, p, 8, "ptr"), e.load(s, padd(p, 8), 8)
    except Unsupported: return e.load(s, padd(p, 8), 8, "ptr"), e.load(s, p, 8)
def use_encrypt(e):
    def crypt(fn):
        def h(en, s, a, i):
            p, n = view_of(en, s, a[2]) if len(a) == 3 and isinstance(a[2], Ptr) else (a[2], a[3])
            str_init(s, a[1], fresh("cryptlen", 64), seq=fn(seq_of(en, s, p, n)))
        return h
    e.intercepts.insert(0, (rx(r"^mm::PdfStatefulEncrypt::EncryptTo"), crypt(ENC)))
    e.intercepts.insert(0, (rx(r"^mm::PdfStatefulEncrypt::DecryptTo"), crypt(DEC)))
def enc_obj(u, e, st, on):
    enc = st.new_region("encrypt", 64); c = st.new_region("PdfEncrypt", 64)
    st.wr(st.fptr(enc, "mm::PdfStatefulEncrypt", "m_encrypt"), 8, c if on else Ptr(0, 0))
    return enc

@proof("character helpers")
def helpers(u):
    prove_hexvalue(u); prove_charclass(u, ["IsWhitespace"])
    e = u.engine(""); st = State(e); ch = z3.BitVec("ch", 8)
    ps = e.run(u.m.find("isOctalChar"), [ch], st); finals(e, ps, "isOctalChar")
    for q in ps: e.prove("isOctalChar/post/is an octal digit", q, tobool(q.ret) == is_oct(ch))

@proof("read literal")
def read(u):
    for on in (False, True):
        tag = " (encrypted)" if on else ""
        e = u.engine(""); st = State(e); this = st.new_region("tokenizer", u.m.sizeof(TK)); cb = st.fptr(this, TK, "m_charBuffer")
        str_init(st, cb, z3.BitVec("oldlen", 64))
        n = z3.BitVec("n", 64); st.assume(z3.ULE(n, BV(1 << 30, 64))); dev, arr = new_input(st, "device", n)
        var = st.new_region("variant", 64); made = capture(e, st); capture_variant(e, st, var); use_encrypt(e); enc = enc_obj(u, e, st, on)
        def fromraw(en, s, a, i):
            p, m = view_of(en, s, a[1]); made(s, seq_of(en, s, p, m) if not (isc(simp(m)) and cval(simp(m)) == 0) else NIL, a[2])
        e.intercepts.insert(0, (rx(r"^mm::PdfString::FromRaw"), fromraw))
        fold = Fold(rd_init(), rd_step, arr, 0, n)
        def facts(h): p = in_pos(h.st, dev); return fold.facts(p) + fold.final(5, p)
        def inv(h):
            p = in_pos(h.st, dev); f = fold.at(p); L = str_len(h.st, cb)
            return [("string so far", str_seq(h.st, cb) == f[0]), ("position", z3.And(z3.ULE(p, n), f[4] == p, z3.Not(f[5]), z3.ULE(f[1], 4))),
                    ("length", z3.And((L == 0) == (f[0] == NIL), z3.ULE(L, p), z3.Implies(z3.Or(f[1] == OCT1, f[1] == OCT2), z3.ULT(L, p))))]
        def auto(h):
            f = fold.at(in_pos(h.st, dev)); return f[1], range(5), [f[2], f[3]]
        ps = e.run(u.m.find("mm::PdfTokenizer::ReadString"), [this, dev, var, enc], st, [LoopSpec(inv=inv, facts=facts, auto=auto)])
        finals(e, ps, "ReadString" + tag); nothrow(e, ps, "ReadString" + tag)
        f = fold.at(n); o = rd_out(f)
        for p in ps:
            e.prove("ReadString%s/post/the bytes of the string" % tag, p, p.ghost[("value",)] == (z3.If(o == NIL, NIL, DEC(o)) if on else o))
            e.prove("ReadString%s/post/kind is literal, set once" % tag, p, z3.And(p.ghost[("hex",)] == 0, p.ghost[("made",)] == 1, p.ghost[("set",)] == 1))
            e.prove("ReadString%s/post/consumes up to the closing parenthesis" % tag, p, in_pos(p, dev) == f[4])
    q = u.engine("lemma/")
    lemma_final(q, "nothing is read after the closing parenthesis", rd_step, [z3.Const("o", Bytes), z3.BitVec("ph", 8), z3.BitVec("oc", 8), z3.BitVec("d", 32), z3.BitVec("p", 64), z3.Bool("fin")], 5)

# ---- hexadecimal strings: digits pair up, an odd last digit is the high one
def hx_init(): return [NIL, BV(0, 8), BV(0, 8)]
def hx_step(s, c):
    out, ph, hi = s
    return ite(z3.Not(is_hex(c)), s, ite(ph == 0, [out, BV(1, 8), hexval(c)], [snoc(out, (hi << 4) | hexval(c)), BV(0, 8), BV(0, 8)]))
def hx_out(s): return z3.If(s[1] == 1, snoc(s[0], s[2] << 4), s[0])
# the digits up to '>': digits, parity, done, consumed
def hd_init(): return [NIL, BV(0, 8), BV(0, 64), z3.BoolVal(False)]
def hd_step(s, c):
    o, par, pos, fin = s; T, F = z3.BoolVal(True), z3.BoolVal(False)
    return ite(fin, s, ite(c == ord(">"), [o, par, pos + 1, T], ite(is_hex(c), [snoc(o, c), par ^ 1, pos + 1, F], [o, par, pos + 1, F])))
@proof("read hex digits")
def hexdigits(u):
    e = u.engine(""); st = State(e); buf = st.new_region("buffer", 32); str_init(st, buf, z3.BitVec("oldlen", 64))
    n = z3.BitVec("n", 64); st.assume(z3.ULE(n, BV(1 << 30, 64))); dev, arr = new_input(st, "device", n)
    fold = Fold(hd_init(), hd_step, arr, 0, n)
    def facts(h): p = in_pos(h.st, dev); return fold.facts(p) + fold.final(3, p)
    def inv(h):
        p = in_pos(h.st, dev); f = fold.at(p); L = str_len(h.st, buf)
        return [("digits so far", str_seq(h.st, buf) == f[0]), ("position", z3.And(z3.ULE(p, n), f[2] == p, z3.Not(f[3]), z3.ULE(f[1], 1))), ("parity", z3.And(L & 1 == z3.ZeroExt(56, f[1]), z3.ULE(L, p)))]
    ps = e.run(u.m.find("readHexString"), [dev, buf], st, [LoopSpec(inv=inv, facts=facts)])
    finals(e, ps, "readHexString"); nothrow(e, ps, "readHexString")
    f = fold.at(n)
    for p in ps:
        e.prove("readHexString/post/the digits, padded to an even number with 0", p, str_seq(p, buf) == z3.If(f[1] == 1, snoc(f[0], u8(48)), f[0]))
        e.prove("readHexString/post/consumes up to the closing bracket", p, in_pos(p, dev) == f[2])
    q = u.engine("lemma/")
    lemma_final(q, "nothing is read after the closing bracket", hd_step, [z3.Const("o", Bytes), z3.BitVec("par", 8), z3.BitVec("p", 64), z3.Bool("fin")], 3)
    o, hi, c = z3.Const("o", Bytes), z3.BitVec("hi", 8), z3.BitVec("c", 8)
    q.prove("padding with 0 gives what an odd last digit means", None, z3.Implies(z3.ULT(hi, 16), hx_out(hx_step([o, BV(1, 8), hi], u8(48))) == hx_out([o, BV(1, 8), hi])))
@proof("hex data")
def hexdata(u):
    for on in (False, True):
        tag = " (encrypted)" if on else ""
        e = u.engine(""); st = State(e); use_hexvalue(e); use_charclass(e)
        n = z3.BitVec("n", 64); st.assume(z3.ULE(n, BV(1 << 40, 64))); src, arr = st.buffer("hex", n)
        made = capture(e, st); use_encrypt(e); enc = enc_obj(u, e, st, on); ret = st.new_region("ret", 32)
        view = st.new_region("view", 16); st.wr(view, 8, n); st.wr(padd(view, 8), 8, src)
        fold = Fold(hx_init(), hx_step, arr, 0, n)
        # precondition: digits and white space (what readHexString delivers)
        def pre(k): c = fold.byte(k); return z3.Implies(z3.ULT(k, n), z3.Or(is_hex(c), is_white(c)))
        def facts(h): return fold.facts(h.k) + [pre(h.k)]
        def obuf(s):
            c = [k for k in s.ghost if k[0] == "strseq"]
            if len(c) != 1: raise Unsupported("output buffer of FromHexData not found")
            return s.ghost[c[0]]
        def inv(h): f = fold.at(h.k); return [("bytes so far", z3.And(z3.ULE(h.k, n), obuf(h.st) == f[0], z3.ULE(f[1], 1)))]
        def auto(h): f = fold.at(h.k); return f[1], range(2), [f[2]]
        F = u.m.find("mm::PdfString::FromHexData")
        ps = e.run(F, [ret, view, enc], st, [LoopSpec(inv=inv, facts=facts, auto=auto)])
        finals(e, ps, "FromHexData" + tag); nothrow(e, ps, "FromHexData" + tag)
        o = hx_out(fold.at(n))
        for p in ps:
            e.prove("FromHexData%s/post/the bytes of the string" % tag, p, p.ghost[("value",)] == (DEC(o) if on else o))
            e.prove("FromHexData%s/post/kind is hex" % tag, p, z3.And(p.ghost[("hex",)] == 1, p.ghost[("made",)] == 1))
@proof("read hex")
def readhex(u):
    e = u.engine(""); st = State(e); this = st.new_region("tokenizer", u.m.sizeof(TK)); cb = st.fptr(this, TK, "m_charBuffer")
    str_init(st, cb, z3.BitVec("oldlen", 64)); dev = st.new_region("dev", 64); var = st.new_region("variant", 64); enc = enc_obj(u, e, st, False)
    capture(e, st); capture_variant(e, st, var)
    digits = z3.Const("digits", Bytes); ln = z3.BitVec("ndigits", 64); st.assume((ln == 0) == (digits == NIL))
    e.contracts[u.m.find("readHexString")] = lambda en, s, a, i: (str_init(s, a[1], ln, seq=digits), None)[1]
    got = []
    def fh(en, s, a, i):
        p, m = view_of(en, s, a[1])
        got.append((s.clone(), z3.If(m == 0, NIL, seq_of(en, s, p, m)) if s.region(p).kind == "str" else z3.If(m == 0, NIL, z3.Const("other", Bytes))))
        s.ghost[("calls",)] = simp(s.ghost.get(("calls",), BV(0, 64)) + 1)
        if not s.dry: en.prove("ReadHexString/passes on the encryption", s, z3.BoolVal(a[2].rid == enc.rid))
    e.intercepts.insert(0, (rx(r"^mm::PdfString::FromHexData"), fh))
    ps = e.run(u.m.find("mm::PdfTokenizer::ReadHexString"), [this, dev, var, enc], st)
    finals(e, ps, "ReadHexString"); nothrow(e, ps, "ReadHexString")
    for s, sq in got: e.prove("ReadHexString/post/the string is made from the digits read", s, sq == digits)
    for p in ps: e.prove("ReadHexString/post/the variant is set once", p, z3.And(p.ghost[("set",)] == 1, p.ghost.get(("calls",), BV(0, 64)) == 1))

# ---- writing
def wl_step(s, c):
    sp = z3.Or(*[c == x for x in (10, 13, 9, 8, 12, ord("("), ord(")"), ord("\\"))])
    e = c
    for a, b in ((10, "n"), (13, "r"), (9, "t"), (8, "b"), (12, "f")): e = z3.If(c == a, u8(ord(b)), e)
    return [z3.If(sp, snoc(snoc(s[0], u8(ord("\\"))), e), snoc(s[0], c))]
def wh_step(s, c):
    d = lambda x: z3.If(z3.ULT(x, 10), x + 48, x + 55)
    return [snoc(snoc(s[0], d(z3.LShR(c, 4))), d(c & 15))]
@proof("write")
def write(u):
    W = u.m.find("utls::WriteCharHexTo")
    e = u.engine(""); st = State(e); c = z3.BitVec("c", 8); b = st.new_region("two", 2)
    ps = e.run(W, [b, c], st); finals(e, ps, "WriteCharHexTo"); nothrow(e, ps, "WriteCharHexTo")
    d = lambda x: z3.If(z3.ULT(x, 10), x + 48, x + 55)
    for p in ps: e.prove("WriteCharHexTo/post/two hexadecimal digits", p, z3.And(p.rd(b, 1) == d(z3.LShR(c, 4)), p.rd(padd(b, 1), 1) == d(c & 15)))
    for hx in (False, True):
        for on in (False, True):
            tag = " (%s%s)" % ("hex" if hx else "literal", ", encrypted" if on else "")
            e = u.engine(""); st = State(e); sd = PS + "::StringData"
            def wch(en, s, a, i): s.wr(a[0], 1, simp(d(z3.LShR(a[1], 4)))); s.wr(padd(a[0], 1), 1, simp(d(a[1] & 15)))
            e.contracts[W] = wch
            this = st.new_region("string", u.m.sizeof(PS)); data = st.new_region("stringdata", u.m.sizeof(sd))
            st.wr(st.fptr(this, PS, "m_data"), 8, data); st.setfld(this, PS, "m_isHex", BV(1 if hx else 0, 8))
            n = z3.BitVec("n", 64); st.assume(z3.ULE(n, BV(1 << 40, 64)))
            chars = st.fptr(data, sd, "Chars"); str_init(st, chars, n); val = str_seq(st, chars); st.assume((n == 0) == (val == NIL))
            S = st.fld(data, sd, "State"); raw = [BV(enum_val(u, "mm::PdfStringState", x), S.size()) for x in ("RawBuffer", "Ascii")]
            st.assume(z3.Or(*[S == r for r in raw]))
            arr = e.flatten(st, str_buf(st, chars)).arr
            if on:
                m = z3.BitVec("m", 64); st.assume(z3.ULE(m, BV(1 << 41, 64))); earr = z3.Const("earr", ARR)
                def enc_h(en, s, a, i):
                    p, l = view_of(en, s, a[2]) if len(a) == 3 else (a[2], a[3])
                    if not s.dry: en.prove("Write%s/the bytes of the string are encrypted" % tag, s, z3.And(l == n, seq_of(en, s, p, l) == val))
                    str_init(s, a[1], m, seq=ENC(val)); r = s.wregion(str_buf(s, a[1])); r.arr = earr; r.cells = {}
                e.intercepts.insert(0, (rx(r"^mm::PdfStatefulEncrypt::EncryptTo"), enc_h))
                def swap(en, s, a, i):
                    k0, k1 = okey(a[0]), okey(a[1])
                    for f in ("strlen", "strbuf", "strseq"):
                        x, y = s.ghost[(f,) + k0], s.ghost[(f,) + k1]; s.ghost[(f,) + k0] = y; s.ghost[(f,) + k1] = x
                    for k in (k0, k1):
                        r = s.mem[s.ghost[("strbuf",) + k]].clone(); r.owner = k; s.mem[r.rid] = r
                e.intercepts.insert(0, (rx(r"basic_string<char, .*>::swap\("), swap))
            N, A = (m, earr) if on else (n, arr)
            enc = enc_obj(u, e, st, on); buffer = st.new_region("buffer", 32); str_init(st, buffer, z3.BitVec("bl", 64))
            e.intercepts.insert(0, (rx(r"basic_string<char16_t.*>::(basic_string\(\)|~basic_string\(\))"), lambda en, s, a, i: None))
            out = new_stream(st, "out"); o0 = stream_val(st, out)
            fold = Fold([snoc(o0, u8(ord("<" if hx else "(")))], wh_step if hx else wl_step, A, 0, N)
            ps = e.run(u.m.find(PS + "::Write"), [this, out, BV(0, 32), enc, buffer], st,
                       [LoopSpec(inv=lambda h: [("written so far", z3.And(z3.ULE(h.k, N), stream_val(h.st, out) == fold.at(h.k)[0]))], facts=lambda h: fold.facts(h.k))])
            finals(e, ps, "Write" + tag); nothrow(e, ps, "Write" + tag)
            want = snoc(fold.at(N)[0], u8(ord(">" if hx else ")")))
            o2 = snoc(snoc(o0, u8(ord("<" if hx else "("))), u8(ord(">" if hx else ")")))
            zero = [fold.at(BV(0, 64))[0] == fold.init[0]]
            for p in ps: e.prove("Write%s/post/brackets around the encoded bytes" % tag, p, z3.If(n == 0, stream_val(p, out) == o2, stream_val(p, out) == want), extra=zero)
    # reading back what was written, byte by byte
    q = u.engine("lemma/"); o, c, pos = z3.Const("o", Bytes), z3.BitVec("c", 8), z3.BitVec("pos", 64)
    s0 = [o, BV(NORMAL, 8), BV(0, 8), BV(0, 32), pos, z3.BoolVal(False)]
    w = wl_step([NIL], c)[0]; one = rd_step(s0, Bytes.last(w)); two = rd_step(rd_step(s0, Bytes.last(Bytes.pre(w))), Bytes.last(w))
    ok = lambda s: z3.And(s[0] == snoc(o, c), s[1] == NORMAL, s[2] == 0, s[3] == 0, z3.Not(s[5]))
    q.prove("reading the written form of a byte gives the byte, outside any nesting", None, z3.If(Bytes.pre(w) == NIL, ok(one), ok(two)))
    cl = rd_step(s0, u8(ord(")"))); q.prove("the closing parenthesis ends the string", None, z3.And(cl[5], rd_out(cl) == o))
    h = wh_step([NIL], c)[0]; a, b = Bytes.last(Bytes.pre(h)), Bytes.last(h)
    s2 = hx_step(hx_step([o, BV(0, 8), BV(0, 8)], a), b)
    q.prove("reading the two digits of a byte gives the byte", None, z3.And(s2[0] == snoc(o, c), s2[1] == 0, a != ord(">"), b != ord(">"), is_hex(a), is_hex(b), a != ord("<"), a != ord("%")))
