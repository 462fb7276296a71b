"""S01 names."""
from contracts.tokcommon import *
TUS = ["base/PdfName.cpp", "base/PdfTokenizer.cpp", "private/PdfDeclarationsPrivate.cpp"]
LEVEL = "proof"
BOUNDED_NOTE = "native round trips (write, unescape, parse): every one-byte and two-byte name, and seeded random names up to 400 bytes over several byte mixes"
TRUSTED = ["std::shared_ptr holds the pointer it was given", "TryReadNextToken is used through the contract proved under S03"]
UNITS, BOUNDED, proof, bounded = registry()
NM = "mm::PdfName"
def plain(c): return z3.And(is_regular(c), is_printable(c), c != ord("#"))
def hexd(n): return z3.If(z3.ULT(n, 10), n + 48, n + 55)
HASH = u8(ord("#"))
# escaping: state (array being written, length)
def esc_step(s, c):
    R, L = s
    one = [z3.Store(R, L, c), L + 1]
    three = [z3.Store(z3.Store(z3.Store(R, L, HASH), L + 1, hexd(z3.LShR(c, 4))), L + 2, hexd(c & 15)), L + 3]
    return ite(plain(c), one, three)
def len_step(s, c): return [s[0] + z3.If(plain(c), BV(1, 64), BV(3, 64))]
# unescaping: state (output, phase, high digit, position); n is the length
def unesc_step(n):
    def step(s, c):
        o, ph, hi, pos = s
        a = ite(z3.And(c == HASH, z3.ULT(pos + 2, n)), [o, BV(1, 8), hi, pos + 1], [snoc(o, c), BV(0, 8), hi, pos + 1])
        return ite(ph == 0, a, ite(ph == 1, [o, BV(2, 8), hexval(c), pos + 1], [snoc(o, (hi << 4) | hexval(c)), BV(0, 8), hi, pos + 1]))
    return step
def is_print(c): return inrange(c, 33, 126)

@proof("character classes")
def classes(u):
    prove_charclass(u, ("IsWhitespace", "IsDelimiter", "IsRegular"))
    F = u.m.find("mm::PdfTokenizer::IsPrintable"); e = u.engine(""); st = State(e); ch = z3.BitVec("ch", 8)
    ps = e.run(F, [ch], st); finals(e, ps, "IsPrintable")
    # the tokenizer counts '}' and '~' as not printable: they may be escaped or not, both are read back
    for q in ps: e.prove("IsPrintable/post/only printable characters", q, z3.Implies(tobool(q.ret), is_print(ch)))
def code_print(u):
    """the printable set of the code itself, read off IsPrintable for all 256 bytes (contract of the callee)"""
    F = u.m.find("mm::PdfTokenizer::IsPrintable"); e = u.engine("IsPrintable/"); st = State(e); ch = z3.BitVec("ch", 8)
    ps = e.run(F, [ch], st)
    val = z3.BoolVal(False)
    for q in ps: val = z3.Or(val, z3.And(*(list(q.pc) + [tobool(q.ret)])))
    return ch, simp(val)

@proof("escape")
def escape(u):
    e = u.engine(""); st = State(e); use_charclass(e)
    ch0, pr = code_print(u)
    F = find_opt(e.m, "mm::PdfTokenizer::IsPrintable")
    PR = lambda c: z3.substitute(pr, (ch0, c))
    e.contracts[F] = lambda e, s, a, i: simp(PR(a[0]))
    def plain_(c): return z3.And(is_regular(c), PR(c), c != ord("#"))
    def lstep(s, c): return [s[0] + z3.If(plain_(c), BV(1, 64), BV(3, 64))]
    def estep(s, c):
        R, L = s
        return ite(plain_(c), [z3.Store(R, L, c), L + 1], [z3.Store(z3.Store(z3.Store(R, L, HASH), L + 1, hexd(z3.LShR(c, 4))), L + 2, hexd(c & 15)), L + 3])
    dst = st.new_region("dst", 32); str_init(st, dst, z3.BitVec("oldlen", 64))
    n = z3.BitVec("n", 64); st.assume(z3.ULE(n, BV(1 << 40, 64)))
    src, arr = st.buffer("name", n)
    view = st.new_region("view", 16); st.wr(view, 8, n); st.wr(padd(view, 8), 8, src)
    L = Fold([BV(0, 64)], lstep, arr, 0, n); buf = {}
    def rfold(st0):
        b = str_buf(st0, dst); a = e.flatten(st0, b).arr
        if a.get_id() not in buf: buf[a.get_id()] = (a, Fold([a, BV(0, 64)], estep, arr, 0, n))
        return b, buf[a.get_id()][1]
    def pre(k): return z3.Implies(z3.ULT(k, n), z3.Select(arr, k) != 0)       # precondition: no null bytes
    def mono(k):   # consequence of the counting lemma: the length never shrinks
        return [z3.Implies(z3.ULT(k, n), z3.ULE(L.at(simp(k + 1))[0], L.at(n)[0])), z3.ULE(L.at(k)[0], 3 * k)]
    def facts(h): return L.facts(h.k) + [pre(h.k)] + mono(h.k) + mono(n)
    counting = LoopSpec(inv=lambda h: [("length so far", z3.And(z3.ULE(h.k, n), ghostlen(h) == L.at(h.k)[0]))], facts=facts, name="measure", match=lambda fn, Lp: measure_loop(Lp))
    def ghostlen(h):
        c = [h.phis[i] for i, v0, _ in h.entry if z3.is_bv(v0) and v0.size() == 64 and i in h.phis]
        # the accumulated length is the local that is not the position
        r = [x for x in c if not x.eq(h.k) and not (isc(x) and h.k.eq(x))]
        if not r: return h.k
        return r[0]
    def cursor(h):
        b, f = rfold(h.st0); return h.cursor(b.rid)
    def w_inv(h):
        b, f = rfold(h.st0)
        return [("bytes written", e.flatten(h.st, b).arr == f.at(h.k)[0]), ("write position", z3.And(z3.ULE(h.k, n), cursor(h) == f.at(h.k)[1], f.at(h.k)[1] == L.at(h.k)[0]))]
    def w_facts(h): return facts(h) + rfold(h.st0)[1].facts(h.k)
    order = []
    def measure_loop(Lp):
        if Lp["h"] not in order: order.append(Lp["h"])
        return order.index(Lp["h"]) == 0
    write = LoopSpec(inv=w_inv, facts=w_facts, name="write", match=lambda fn, Lp: not measure_loop(Lp))
    ps = e.run(u.m.find("EscapeNameTo"), [dst, n, src] if len(u.m.fns[u.m.find("EscapeNameTo")].get("args", [])) == 3 else [dst, view], st, [counting, write])
    finals(e, ps, "EscapeNameTo"); nothrow(e, ps, "EscapeNameTo")
    for p in ps:
        b = str_buf(p, dst)
        e.prove("EscapeNameTo/post/length of the escaped form", p, str_len(p, dst) == L.at(n)[0])
        fs = [f for _, f in buf.values()]
        e.prove("EscapeNameTo/post/bytes of the escaped form", p, z3.Or(*[z3.And(e.flatten(p, b).arr == f.at(n)[0], f.at(n)[1] == L.at(n)[0]) for f in fs]))
    # what the escaped form of one byte is
    q = u.engine("lemma/"); c = z3.BitVec("c", 8); R = z3.Const("R", ARR); l = z3.BitVec("l", 64); k, m = z3.BitVecs("k m", 64)
    R2, l2 = estep([R, l], c)
    q.prove("length grows by what is written", None, z3.Implies(z3.ULE(l, BV(1 << 50, 64)), z3.And(l2 == lstep([l], c)[0], z3.UGT(l2, l), z3.ULE(l2, l + 3))))
    q.prove("length bound is kept", None, z3.Implies(z3.And(z3.ULE(k, BV(1 << 40, 64)), z3.ULE(l, 3 * k)), z3.ULE(lstep([l], c)[0], 3 * (k + 1))))
    i = z3.BitVec("i", 64)
    okch = lambda x: z3.And(is_regular(x), is_print(x))
    q.prove("only regular printable characters are written", None, z3.Implies(z3.And(c != 0, z3.ULE(l, i), z3.ULT(i, l2), z3.ULE(l, BV(1 << 50, 64))), okch(z3.Select(R2, i))))
    q.prove("bytes already written stay", None, z3.Implies(z3.And(z3.ULT(i, l), z3.ULE(l, BV(1 << 50, 64))), z3.Select(R2, i) == z3.Select(R, i)))
    q.prove("delimiters, white space, # and unprintable bytes become # and two hex digits", None, z3.Implies(z3.And(z3.ULE(l, BV(1 << 50, 64)), z3.Not(z3.And(is_regular(c), is_print(c), c != HASH))),
            z3.And(l2 == l + 3, z3.Select(R2, l) == HASH, z3.Select(R2, l + 1) == hexd(z3.LShR(c, 4)), z3.Select(R2, l + 2) == hexd(c & 15))))
    # unescaping the escaped form of c appends c
    o = z3.Const("o", Bytes); n2, hi = z3.BitVec("n2", 64), z3.BitVec("hi", 8); st_ = unesc_step(n2)
    s1 = st_([o, BV(0, 8), hi, l], z3.Select(R2, l)); s3 = st_(st_(s1, z3.Select(R2, l + 1)), z3.Select(R2, l + 2))
    pre_ = z3.And(z3.ULE(l, BV(1 << 50, 64)), z3.ULE(l2, n2), c != 0)
    q.prove("unescaping the written form of a byte gives the byte", None, z3.Implies(pre_, z3.If(l2 == l + 1, z3.And(s1[0] == snoc(o, c), s1[1] == 0, s1[3] == l2), z3.And(s3[0] == snoc(o, c), s3[1] == 0, s3[3] == l2))))
    # the tokenizer keeps the whole escaped form as one token
    T = Tok(u); M, cons, cnt = z3.BitVecs("M cons cnt", 64); x = z3.BitVec("x", 8)
    for ph in (T.SKIP, T.TOKEN):
        s2 = T.step(M)([BV(ph, 8), cons, R, cnt, T.t["Literal"], z3.BoolVal(False)], x)
        q.prove("regular characters continue a token (phase %d)" % ph, None, z3.Implies(z3.And(okch(x), z3.ULT(cnt + 1, M), z3.ULT(cnt, M)), z3.And(s2[0] == T.TOKEN, s2[1] == cons + 1, s2[2] == z3.Store(R, cnt, x), s2[3] == cnt + 1, s2[4] == T.t["Literal"], z3.Not(s2[5]))))

def view_args(e, u, F, st, n, p, pre=(), post=()):
    view = st.new_region("view", 16); st.wr(view, 8, n); st.wr(padd(view, 8), 8, p)
    return list(pre) + [view] + list(post)

@proof("unescape")
def unescape(u):
    e = u.engine(""); st = State(e)
    n = z3.BitVec("n", 64); st.assume(z3.ULE(n, BV(1 << 40, 64)))
    src, arr = st.buffer("text", n)
    ret = st.new_region("ret", 32)
    F = u.m.find("UnescapeName")
    fold = Fold([NIL, BV(0, 8), BV(0, 8), BV(0, 64)], unesc_step(n), arr, 0, n)
    def valid(k): f = fold.at(k); return z3.Implies(z3.And(z3.ULT(k, n), f[1] != 0), is_hex(z3.Select(arr, k)))   # precondition: # is followed by hex digits
    def pos(h): return h.cursor(src.rid)
    def facts(h):
        p = pos(h); ks = [simp(p + j) for j in range(3)]
        return sum([fold.facts(k) + [valid(k)] for k in ks], [])
    def inv(h):
        p = pos(h); f = fold.at(p)
        return [("output", str_seq(h.st, ret) == f[0]), ("position", z3.And(z3.ULE(p, n), f[1] == 0, f[3] == p))]
    ps = e.run(F, view_args(e, u, F, st, n, src, pre=[ret]), st, [LoopSpec(inv=inv, facts=facts)])
    finals(e, ps, "UnescapeName"); nothrow(e, ps, "UnescapeName")
    for p in ps: e.prove("UnescapeName/post/output is the unescaped text", p, str_seq(p, ret) == fold.at(n)[0])

def name_obj(u, e, st):
    """a PdfName whose characters are n arbitrary bytes"""
    nd = NM + "::NameData"
    this = st.new_region("name", u.m.sizeof(NM)); data = st.new_region("namedata", u.m.sizeof(nd))
    st.wr(st.fptr(this, NM, "m_data"), 8, data)
    n = z3.BitVec("n", 64); st.assume(z3.ULE(n, BV(1 << 40, 64)))
    chars = st.fptr(data, nd, "Chars"); str_init(st, chars, n)
    return this, chars, n
ESCSEQ = z3.Function("escaped", ARR, z3.BitVecSort(64), Bytes); ESCARR = z3.Function("escaped_bytes", ARR, z3.BitVecSort(64), ARR); ESCLEN = z3.Function("escaped_length", ARR, z3.BitVecSort(64), z3.BitVecSort(64))
def use_escape(u, e):
    F = u.m.find("EscapeNameTo")
    def h(en, s, a, i):
        n, p = en.load(s, a[1], 8), en.load(s, padd(a[1], 8), 8, "ptr")
        arr = en.flatten(s, p).arr
        str_init(s, a[0], ESCLEN(arr, n), seq=ESCSEQ(arr, n))
        b = str_buf(s, a[0]); r = s.wregion(b); r.arr = ESCARR(arr, n); r.cells = {}
    e.contracts[F] = h
@proof("write")
def write(u):
    e = u.engine(""); st = State(e); this, chars, n = name_obj(u, e, st); use_escape(u, e)
    arr = e.flatten(st, str_buf(st, chars)).arr
    out = new_stream(st, "out"); o0 = stream_val(st, out); enc = st.new_region("enc", 64); buffer = st.new_region("buffer", 32); str_init(st, buffer, z3.BitVec("bl", 64))
    ps = e.run(u.m.find(NM + "::Write"), [this, out, BV(0, 32), enc, buffer], st)
    finals(e, ps, "PdfName::Write"); nothrow(e, ps, "PdfName::Write")
    want = z3.If(n == 0, snoc(o0, u8(47)), z3.If(ESCLEN(arr, n) == 0, snoc(o0, u8(47)), APP(snoc(o0, u8(47)), ESCARR(arr, n), BV(0, 64), ESCLEN(arr, n))))
    for p in ps: e.prove("PdfName::Write/post/a slash and the escaped form", p, stream_val(p, out) == want)
    e = u.engine(""); st = State(e); this, chars, n = name_obj(u, e, st); use_escape(u, e)
    arr = e.flatten(st, str_buf(st, chars)).arr; ret = st.new_region("ret", 32)
    ps = e.run(u.m.find(NM + "::GetEscapedName"), [ret, this], st)
    finals(e, ps, "PdfName::GetEscapedName"); nothrow(e, ps, "PdfName::GetEscapedName")
    for p in ps: e.prove("PdfName::GetEscapedName/post/the escaped form", p, z3.If(n == 0, str_seq(p, ret) == NIL, str_seq(p, ret) == ESCSEQ(arr, n)))
@proof("read")
def read(u):
    e, st, this, bufobj, M, dev, arr, n = tok_setup(u); use_charclass(e)
    T = Tok(u); buf = str_buf(st, bufobj); R0 = e.flatten(st, buf).arr
    fold = Fold(T.init(R0), T.step(M), arr, 0, n); ph, cons, R, cnt, ty, fin = fold.at(n)
    var = st.new_region("variant", 64); st.ghost[("name",)] = NIL; st.ghost[("queued",)] = BV(0, 64); st.ghost[("set",)] = BV(0, 64)
    def token(en, s, a, i):      # contract of TryReadNextToken (S03), empty queue
        assert a[0].rid == this.rid and a[1].rid == dev.rid
        if not s.dry: en.prove("ReadName/nothing consumed before the token", s, in_pos(s, dev) == 0)
        s.ghost[("inpos", dev.rid)] = cons; ok = cnt != 0
        r = s.wregion(buf); r.arr = z3.If(ok, z3.Store(R, cnt, BV(0, 8)), R); r.cells = {}
        s.wr(a[2], 8, z3.If(ok, cnt, BV(0, 64))); s.wr(padd(a[2], 8), 8, buf)
        t = fresh("type", 32); s.assume(z3.Implies(fin, t == ty)); s.assume(z3.ULE(cnt, M)); s.wr(a[3], 4, t)
        s.ghost[("tok",)] = t
        return ok
    e.contracts[u.m.find("mm::PdfTokenizer::TryReadNextToken", pred=lambda f: f["dem"].rstrip().endswith("PdfTokenType&)") and "PdfVariant" not in f["dem"])] = token
    def fromesc(en, s, a, i):
        k, p = en.load(s, a[1], 8), en.load(s, padd(a[1], 8), 8, "ptr")
        s.ghost[("name",)] = simp(APP(NIL, en.flatten(s, p).arr, p.off, k)); s.ghost[("nametype",)] = "escaped"
    e.intercepts.insert(0, (rx(r"^mm::PdfName::FromEscaped"), fromesc))
    e.intercepts.insert(0, (rx(r"^mm::PdfName::(PdfName\(\)|~PdfName)"), lambda en, s, a, i: None))
    e.intercepts.insert(0, (rx(r"^mm::PdfVariant::(PdfVariant|~PdfVariant)\("), lambda en, s, a, i: None))
    def assign(en, s, a, i):
        if a[0].rid == var.rid: s.ghost[("set",)] = simp(s.ghost[("set",)] + 1)
        return a[0]
    e.intercepts.insert(0, (rx(r"^mm::PdfVariant::operator="), assign))
    def enq(en, s, a, i): s.ghost[("queued",)] = simp(s.ghost[("queued",)] + 1)
    e.intercepts.insert(0, (rx(r"^mm::PdfTokenizer::EnqueueToken"), enq))
    ps = e.run(u.m.find("mm::PdfTokenizer::ReadName"), [this, dev, var], st)
    finals(e, ps, "ReadName"); nothrow(e, ps, "ReadName")
    c0 = z3.Select(arr, BV(0, 64)); empty = z3.Or(n == 0, is_white(c0))
    for p in ps:
        nm = p.ghost[("name",)]; t = p.ghost.get(("tok",))
        e.prove("ReadName/post/the variant is set once", p, p.ghost[("set",)] == 1)
        if t is None: e.prove("ReadName/post/white space or the end: empty name, nothing consumed", p, z3.And(empty, nm == NIL, in_pos(p, dev) == 0))
        else:
            lit = z3.And(cnt != 0, t == T.t["Literal"])
            e.prove("ReadName/post/the token is the escaped name", p, z3.And(z3.Not(empty), z3.If(lit, nm == APP(NIL, z3.Store(R, cnt, BV(0, 8)), BV(0, 64), cnt), nm == NIL)))
            e.prove("ReadName/post/another token is kept for later", p, p.ghost[("queued",)] == z3.If(z3.And(cnt != 0, z3.Not(lit)), BV(1, 64), BV(0, 64)))
