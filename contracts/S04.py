"""S04 numbers, booleans, null and references."""
from contracts.tokcommon import *
def view_of(e, s, p): return e.load(s, padd(p, 8), 8, "ptr"), e.load(s, p, 8)
TUS = ["base/PdfVariant.cpp", "base/PdfReference.cpp", "base/PdfTokenizer.cpp", "private/PdfDeclarationsPrivate.cpp", "base/PdfStringStream.cpp"]
LEVEL = "proof"
BOUNDED_NOTE = "native: all boundary integers and seeded ones of every width, booleans, null, references with boundary numbers, seeded reals over the whole range and every precision, written and parsed back, alone and in sequences in arrays"
TRUSTED = ["std::to_chars / std::from_chars and fmt::format convert numbers to decimal text and back exactly (C++ standard and fmt documentation); the native check exercises the composition",
           "std::deque keeps the tokens put back in order"]
UNITS, BOUNDED, proof, bounded = registry()
VA, RF = "mm::PdfVariant", "mm::PdfReference"
W64 = z3.BitVecSort(64)
# decimal text of an integer of a width, as delivered by the library
TXT = z3.Function("decimal", W64, ARR); TXTLEN = z3.Function("decimal_length", W64, W64)
def ndigits(v):
    """number of decimal digits of an unsigned 64-bit number"""
    r = BV(1, 64)
    for k in range(1, 20): r = z3.If(z3.UGE(v, BV(10 ** k, 64)), BV(k + 1, 64), r)
    return r
def ext(v, signed): return v if v.size() == 64 else z3.SignExt(64 - v.size(), v) if signed else z3.ZeroExt(64 - v.size(), v)
def textlen(v, signed):
    if not signed: return ndigits(v)
    return z3.If(v < 0, ndigits(-v) + 1, ndigits(v))
INTS = [("signed char", 8, True), ("unsigned char", 8, False), ("short", 16, True), ("unsigned short", 16, False), ("int", 32, True), ("unsigned int", 32, False),
        ("long", 64, True), ("unsigned long", 64, False), ("long long", 64, True), ("unsigned long long", 64, False)]
def zx(v, w):
    """argument as passed, compared in the width of the field (a narrower or differently typed argument fails the proof)"""
    return v if z3.is_bv(v) and v.size() == 8 * w else z3.FreshConst(z3.BitVecSort(8 * w))
def fmt_call(e):
    """utls::FormatTo(str, format, args...): records format text and arguments, str becomes that text (contract of fmt)"""
    def h(en, s, a, i):
        if s.region(a[1]).kind and len(a) >= 3:
            p, n = view_of(en, s, a[1]); f = const_text(en, s, p, n)
            dem = en.m.fns[i["f"][1]]["dem"]; tys = [t.strip() for t in dem[dem.index("<") + 1:dem.index(">(")].split(",")]
            SZ = {"float": (4, "float"), "double": (8, "double"), "unsigned short": (2, "int"), "unsigned int": (4, "int"), "long": (8, "int"), "unsigned long": (8, "int"), "int": (4, "int"), "short": (2, "int")}
            if len(tys) != len(a) - 2 or any(t not in SZ for t in tys): raise Unsupported("arguments of " + dem[:80])
            s.ghost[("fmt",)] = f; s.ghost[("fmtargs",)] = tuple(en.load(s, x, *SZ[t]) for x, t in zip(a[2:], tys))
            l = fresh("fmtlen", 64); s.assume(z3.ULE(l, BV(1 << 20, 64))); str_init(s, a[0], l, seq=z3.Const("formatted", Bytes)); s.ghost[("fmtlen",)] = l
    e.intercepts.insert(0, (rx(r"^void utls::FormatTo<"), h))

@proof("format integers")
def fmtint(u):
    for ty, w, sg in INTS:
        F = [k for k, f in u.m.fns.items() if f["dem"].startswith("utls::FormatTo(") and f["dem"].endswith("&, %s)" % ty) and not f["decl"]]
        if len(F) != 1: raise Unsupported("FormatTo for " + ty)
        e = u.engine("%s/" % ty); st = State(e); s0 = st.new_region("str", 32); str_init(st, s0, z3.BitVec("oldlen", 64))
        v = z3.BitVec("v", w); X = ext(v, sg)
        def to_chars(en, s, a, i):
            room = simp(a[1].off - a[0].off); need = textlen(ext(a[2], sg), sg)
            if not s.dry:
                en.prove("FormatTo/converts the value in base ten", s, z3.And(ext(a[2], sg) == X, a[3] == 10 if len(a) > 3 else z3.BoolVal(True)))
                en.prove("FormatTo/the buffer has room for every value", s, z3.ULE(need, room))
            s.assume(z3.ULE(need, room))
            r = s.wregion(a[0]); r.arr = TXT(X); r.cells = {}
            if not (isc(a[0].off) and cval(a[0].off) == 0): raise Unsupported("to_chars into the middle of a buffer")
            return Agg([padd(a[0], need), BV(0, 32)])
        e.intercepts.insert(0, (rx(r"^std::to_chars\(char\*, char\*, "), to_chars))
        def app(en, s, a, i):      # append of the text: at most 20 bytes, kept as one piece
            n = simp(a[2]); ok = s.mem[a[1].rid].arr if not s.mem[a[1].rid].cells else None
            s.ghost[("text",)] = (ok, a[1].off, n, str_len(s, a[0])); return a[0]
        e.intercepts.insert(0, (rx(SS + r"append\(char const\*, unsigned long\)"), app))
        ps = e.run(F[0], [s0, v], st); finals(e, ps, "FormatTo"); nothrow(e, ps, "FormatTo")
        for p in ps:
            t = p.ghost.get(("text",))
            if t is None: e.prove("FormatTo/post/the text of the value", p, z3.BoolVal(False)); continue
            arr, off, n, old = t
            e.prove("FormatTo/post/the text of the value and nothing else", p, z3.And(arr == TXT(X) if arr is not None else z3.BoolVal(False), off == 0, n == textlen(X, sg), old == 0))

@proof("format reals")
def fmtreal(u):
    for ty in ("float", "double"):
        F = [k for k, f in u.m.fns.items() if f["dem"].startswith("utls::FormatTo(") and f["dem"].endswith("&, %s, unsigned short)" % ty)]
        e = u.engine("%s/" % ty); st = State(e); s0 = st.new_region("str", 32); str_init(st, s0, z3.BitVec("oldlen", 64)); fmt_call(e)
        v = z3.FP("v", z3.Float32() if ty == "float" else z3.Float64()); pr = z3.BitVec("precision", 16); trimmed = []
        def trim(en, s, a, i):
            s.ghost[("trimmed",)] = simp(s.ghost.get(("trimmed",), BV(0, 8)) + 1)
            if not s.dry: en.prove("FormatTo/trims the formatted text", s, str_seq(s, a[0]) == z3.Const("formatted", Bytes))
        e.contracts[u.m.find("removeTrailingZeroes")] = trim
        ps = e.run(F[0], [s0, v, pr], st); finals(e, ps, "FormatTo"); nothrow(e, ps, "FormatTo")
        for p in ps:
            args = p.ghost.get(("fmtargs",), ())
            ok = z3.BoolVal(p.ghost.get(("fmt",)) == b"{:.{}f}" and len(args) == 2)
            if len(args) == 2: ok = z3.And(ok, args[0] == v, args[1] == pr)
            e.prove("FormatTo/post/fixed notation with the given precision, then trimmed", p, z3.And(ok, p.ghost.get(("trimmed",), BV(0, 8)) == 1))

@proof("trailing zeroes")
def trailing(u):
    e = u.engine(""); st = State(e); s0 = st.new_region("str", 32); n = z3.BitVec("n", 64)
    st.assume(z3.ULE(n, BV(1 << 40, 64))); str_init(st, s0, n); arr = e.flatten(st, str_buf(st, s0)).arr
    Z, DOT = u8(48), u8(46); d = z3.BitVec("dot", 64)   # position of the first '.', n if there is none
    ins = lambda q: z3.Select(arr, q)
    q = z3.BitVec("q", 64)
    st.assume(z3.And(z3.ULE(d, n), z3.Implies(z3.ULT(d, n), ins(d) == DOT), z3.ForAll([q], z3.Implies(z3.ULT(q, d), ins(q) != DOT), patterns=[ins(q)]),
              z3.ForAll([q], z3.Implies(z3.And(z3.UGT(q, d), z3.ULT(q, n)), inrange(ins(q), '0', '9')), patterns=[ins(q)])))   # precondition: digits after the '.'
    def inv(h):
        L = [h.phis[i] for i, v0, _ in h.entry if i in h.phis and z3.is_bv(h.phis[i]) and h.phis[i].size() == 64] or [h.k]
        L = L[0]; j = z3.BitVec("j", 64)
        return [("only zeroes are cut", z3.And(z3.ULT(d, n), z3.UGT(L, d), z3.ULE(L, n), z3.ForAll([j], z3.Implies(z3.And(z3.UGE(j, L), z3.ULT(j, n)), ins(j) == Z), patterns=[ins(j)])))]
    ps = e.run(u.m.find("removeTrailingZeroes"), [s0], st, [LoopSpec(inv=inv)])
    finals(e, ps, "removeTrailingZeroes"); nothrow(e, ps, "removeTrailingZeroes")
    for p in ps:
        L = str_len(p, s0); b = e.flatten(p, str_buf(p, s0)).arr; j = fresh("j", 64)
        zero = z3.And(L == 1, z3.Select(b, BV(0, 64)) == Z)
        same_ = z3.Implies(z3.ULT(j, L), z3.Select(b, j) == ins(j)); cut = lambda lo: z3.Implies(z3.And(z3.UGE(j, lo), z3.ULT(j, n)), ins(j) == Z)
        e.prove("removeTrailingZeroes/post/text without '.' is unchanged", p, z3.Implies(d == n, z3.And(L == n, same_)))
        e.prove("removeTrailingZeroes/post/only the '.' and zeroes after it are cut, a lone '.' becomes 0", p, z3.Implies(z3.ULT(d, n),
            z3.Or(z3.And(d == 0, zero, cut(d + 1)), z3.And(d != 0, L == d, same_, cut(d + 1)), z3.And(z3.UGT(L, d + 1), z3.ULE(L, n), ins(L - 1) != Z, same_, cut(L)))))

def types(u): return {k: BV(enum_val(u, "mm::PdfDataType", k), 8) for k in ("Bool", "Number", "Real", "String", "Name", "Array", "Dictionary", "Null", "Reference", "RawData", "Unknown")}
def variant(u, e, st, name):
    v = st.new_region(name, u.m.sizeof(VA)); T = st.fld(v, VA, "m_DataType")
    return v, T
@proof("write")
def write(u):
    for flag in (0, 1):
        e = u.engine("%s/" % ("no space" if flag else "space")); st = State(e); v, T = variant(u, e, st, "variant"); ty = {k: BV(cval(x), T.size()) for k, x in types(u).items()}
        flags = z3.BitVec("flags", 32); noinline = BV(enum_val(u, "mm::PdfWriteFlags", "NoInlineLiteral"), 32)
        st.assume((flags & noinline != 0) == z3.BoolVal(bool(flag)))
        scal = ("Bool", "Number", "Real", "Null", "Reference"); st.assume(z3.Or(*[T == ty[k] for k in scal]))
        D = st.fptr(v, VA, "m_Data"); num = st.rd(D, 8); b = st.rd(D, 1); st.assume(z3.Implies(T == ty["Bool"], z3.ULE(b, 1)))
        R = lambda f: st.fld(D, RF, f)
        objno, gen = R("m_ObjectNo"), R("m_GenerationNo")
        out = new_stream(st, "out"); o0 = stream_val(st, out); enc = st.new_region("enc", 64); buf = st.new_region("buffer", 32); str_init(st, buf, z3.BitVec("bl", 64)); fmt_call(e)
        def real(en, s, a, i):
            s.ghost[("fmt",)] = b"real"; s.ghost[("fmtargs",)] = (a[1], a[2]); l = fresh("fmtlen", 64); s.assume(z3.ULE(l, BV(1 << 20, 64))); str_init(s, a[0], l); s.ghost[("fmtlen",)] = l
        e.intercepts.insert(0, (rx(r"^utls::FormatTo\(.*, double, unsigned short\)"), real))
        ps = e.run(u.m.find(VA + "::Write"), [v, out, flags, enc, buf], st)
        finals(e, ps, "Write"); nothrow(e, ps, "Write")
        base = o0 if flag else snoc(o0, u8(32))
        def lit(t):
            r = base
            for c in t: r = snoc(r, u8(ord(c)))
            return r
        for p in ps:
            o = stream_val(p, out); f = p.ghost.get(("fmt",)); args = p.ghost.get(("fmtargs",), ())
            e.prove("Write/post/null", p, z3.Implies(T == ty["Null"], o == lit("null")))
            e.prove("Write/post/booleans", p, z3.Implies(T == ty["Bool"], o == z3.If(b == 1, lit("true"), lit("false"))))
            isfmt = z3.Or(T == ty["Number"], T == ty["Real"], T == ty["Reference"])
            if f is None: e.prove("Write/post/numbers are formatted", p, z3.Not(isfmt)); continue
            text = append_range(e, p, base, str_buf(p, buf), p.ghost[("fmtlen",)])
            e.prove("Write/post/a space if asked for, then the formatted text", p, z3.Implies(isfmt, o == text))
            ld = lambda k, w: zx(args[k], w)
            if f == b"real": want = z3.And(T == ty["Real"], (z3.fpToIEEEBV(args[0]) == num if not z3.is_bv(args[0]) else args[0] == num) if not z3.eq(args[0], z3.fpBVToFP(num, z3.Float64())) else z3.BoolVal(True), z3.UGE(args[1], 6))
            elif f == b"{}" and len(args) == 1: want = z3.And(T == ty["Number"], ld(0, 8) == num)
            elif f == b"{} {} R" and len(args) == 2: want = z3.And(T == ty["Reference"], ld(0, 4) == objno, ld(1, 2) == gen)
            else: want = z3.BoolVal(False)
            e.prove("Write/post/what is formatted", p, want)
    e = u.engine("reference/"); st = State(e); r = st.new_region("ref", u.m.sizeof(RF)); s0 = st.new_region("str", 32); str_init(st, s0, z3.BitVec("oldlen", 64)); fmt_call(e)
    F = [k for k, f in u.m.fns.items() if f["dem"].startswith(RF + "::ToString(std::")]
    ps = e.run(F[0], [r, s0], st); finals(e, ps, "PdfReference::ToString"); nothrow(e, ps, "PdfReference::ToString")
    for p in ps:
        args = p.ghost.get(("fmtargs",), ()); ok = z3.BoolVal(p.ghost.get(("fmt",)) == b"{} {} R" and len(args) == 2)
        if len(args) == 2: ok = z3.And(ok, zx(args[0], 4) == st.fld(r, RF, "m_ObjectNo"), zx(args[1], 2) == st.fld(r, RF, "m_GenerationNo"))
        e.prove("PdfReference::ToString/post/object and generation number", p, ok)

# what the library makes of a text: error code (0, EINVAL, ERANGE), value
A3 = (ARR, W64, W64)
IEC = z3.Function("integer_ec", *A3, z3.BitVecSort(32)); IVAL = z3.Function("integer_value", *A3, W64)
REC = z3.Function("real_ec", *A3, z3.BitVecSort(32)); RVAL = z3.Function("real_value", *A3, z3.Float64())
def from_chars(e):
    def common(en, s, a, EC):
        if not a[0].rid == a[1].rid: raise Unsupported("from_chars range")
        n = simp(a[1].off - a[0].off)
        if not en.check_access(s, a[0], n, "from_chars", None): raise PathEnd("bad")
        arr = en.flatten(s, a[0]).arr; key = (arr, a[0].off, n); ec = EC(*key)
        s.assume(z3.Or(ec == 0, ec == 22, ec == 34)); return key, ec
    def ints(en, s, a, i):
        key, ec = common(en, s, a, IEC)
        if len(a) > 3 and not s.dry: en.prove("DetermineDataType/numbers are decimal", s, a[3] == 10)
        old = en.load(s, a[2], 8, check=False); s.wr(a[2], 8, simp(z3.If(ec == 0, IVAL(*key), old)))
        return Agg([padd(a[0], fresh("end", 64)), ec])
    def reals(en, s, a, i):
        key, ec = common(en, s, a, REC)
        if not s.dry: en.prove("DetermineDataType/reals are in fixed notation", s, a[3] == BV(2, a[3].size()))
        v = RVAL(*key); s.wr(a[2], 8, z3.fpToIEEEBV(v)); s.assume(z3.Not(z3.fpIsNaN(v)))
        return Agg([padd(a[0], fresh("end", 64)), ec])
    e.intercepts.insert(0, (nrx(r"^_ZSt10from_charsIlE"), ints))
    e.intercepts.insert(0, (rx(r"^std::from_chars\(char const\*, char const\*, double&"), reals))
# class of a text: 0 digits and signs only, 1 also '.', 2 anything else
def cls_step(s, c): return [z3.If(s[0] == 2, s[0], z3.If(c == 46, BV(1, 8), z3.If(z3.Or(inrange(c, '0', '9'), c == 43, c == 45), s[0], BV(2, 8))))]
def lit_is(arr, n, t): return z3.And(n == len(t), *[z3.Select(arr, BV(j, 64)) == ord(c) for j, c in enumerate(t)])

@proof("determine type")
def determine(u):
    LT = TK + "::PdfLiteralDataType"; lt = lambda k: enum_val(u, LT, k); TT = lambda k: enum_val(u, "mm::PdfTokenType", k)
    F = u.m.find(TK + "::DetermineDataType")
    # literal tokens
    e = u.engine(""); st = State(e); this = st.new_region("tokenizer", u.m.sizeof(TK)); dev = st.new_region("dev", 64)
    rr = st.rd(st.fptr(this, TK, "m_readReferences"), 1); st.assume(z3.ULE(rr, 1))
    n = z3.BitVec("n", 64); st.assume(z3.And(z3.UGE(n, 1), z3.ULE(n, 4096)))
    # precondition (post of TryReadNextToken, S03): the token has no zero byte and is followed by one
    buf, arr = st.buffer("token", BV(8192, 64)); st.assume(z3.Select(arr, n) == 0)
    nz = lambda k: z3.Implies(z3.ULT(k, n), z3.Select(arr, k) != 0)
    view = st.new_region("view", 16); st.wr(view, 8, n); st.wr(padd(view, 8), 8, buf)
    var, T0 = variant(u, e, st, "variant"); from_chars(e); ty = {k: BV(cval(x), T0.size()) for k, x in types(u).items()}
    e.intercepts.insert(0, (rx(r"^mm::PdfVariant::clear\("), lambda en, s, a, i: None))
    e.intercepts.insert(0, (rx(r"^mm::PdfVariant::~PdfVariant\("), lambda en, s, a, i: None))
    st.ghost[("queue",)] = (); st.ghost[("tokens",)] = ()
    def enq(en, s, a, i):
        p, m = view_of(en, s, a[1]); s.ghost[("queue",)] = s.ghost[("queue",)] + ((en.flatten(s, p).arr, p.off, m, a[2]),)
    e.intercepts.insert(0, (rx(r"^mm::PdfTokenizer::EnqueueToken"), enq))
    def token(en, s, a, i):   # any next token, in the same buffer
        k = len(s.ghost[("tokens",)]) + 1
        if k > 2: raise Unsupported("more than two tokens are read ahead")
        got = z3.Bool("got%d" % k); t = z3.BitVec("type%d" % k, 32); m = z3.BitVec("len%d" % k, 64); x = z3.Const("token%d" % k, ARR)
        s.assume(z3.ULE(m, 4096)); r = s.wregion(buf); r.arr = z3.If(got, x, en.flatten(s, buf).arr); r.cells = {}
        s.wr(a[2], 8, z3.If(got, m, BV(0, 64))); s.wr(padd(a[2], 8), 8, buf); s.wr(a[3], 4, t)
        s.ghost[("tokens",)] = s.ghost[("tokens",)] + ((got, t, m, x),)
        return got
    e.contracts[u.m.find(TK + "::TryReadNextToken", pred=lambda f: f["dem"].rstrip().endswith("PdfTokenType&)") and "PdfVariant" not in f["dem"])] = token
    def s_copy(en, s, a, i):      # string(view): keeps the bytes the view had
        p, m = view_of(en, s, a[1]); str_init(s, a[0], m); r = s.wregion(str_buf(s, a[0])); r.arr = en.flatten(s, p).arr; r.cells = {}
        if not (isc(p.off) and cval(p.off) == 0): raise Unsupported("copy of part of a token")
    e.intercepts.insert(0, (rx(SS + r"basic_string<std::basic_string_view"), s_copy))
    fold = Fold([BV(0, 8)], cls_step, arr, 0, n)
    def final2(k): return z3.Implies(z3.And(z3.ULT(k, n), z3.Or(fold.at(k)[0] == 2, fold.at(simp(k + 1))[0] == 2)), fold.at(n)[0] == 2)   # lemma below
    def facts(h): return fold.facts(h.k) + [nz(h.k), final2(h.k)]
    N, RL, U = lt("Number"), lt("Real"), lt("Unknown")
    def inv(h):
        f = fold.at(h.k)[0]
        return [("class so far", z3.And(z3.ULE(h.k, n), z3.ULE(f, 1)))]
    def auto(h): return fold.at(h.k)[0], range(3), []
    ps = e.run(F, [this, dev, view, BV(TT("Literal"), 32), var], st, [LoopSpec(inv=inv, facts=facts, auto=auto)])
    finals(e, ps, "DetermineDataType")
    D = st.fptr(var, VA, "m_Data"); cl = fold.at(n)[0]; key = (arr, BV(0, 64), n)
    null, true, false = (lit_is(arr, n, t) for t in ("null", "true", "false")); kw = z3.Or(null, true, false)
    nokw = z3.Not(kw); num = z3.And(nokw, cl == 0, IEC(*key) == 0); big = z3.And(nokw, cl == 0, IEC(*key) == 34, REC(*key) == 0); real = z3.And(nokw, cl == 1, REC(*key) == 0)
    bad = z3.And(nokw, z3.ULE(cl, 1), z3.Not(num), z3.Not(big), z3.Not(real))
    for p in ps:
        q = p.ghost[("queue",)]; tk = p.ghost[("tokens",)]; T1 = p.fld(var, VA, "m_DataType"); d8 = p.rd(D, 8); d1 = p.rd(D, 1)
        same_q = lambda x, a, m, t: z3.And(x[0] == a, x[1] == 0, x[2] == m, x[3] == t)
        if p.kind == "throw":
            e.prove("DetermineDataType/post/raises only for malformed numbers, keeping the token", p, z3.And(bad, z3.BoolVal(p.exc.get("code") is not None), p.exc["code"] == BV(enum_val(u, "mm::PdfErrorCode", "NoNumber"), 32) if p.exc.get("code") is not None else z3.BoolVal(False),
                z3.BoolVal(len(q) == 1 and len(tk) == 0), same_q(q[0], arr, n, BV(TT("Literal"), 32)) if len(q) == 1 else z3.BoolVal(False)))
            continue
        r = p.ret; W = r.size()
        is_ = lambda k: r == BV(lt(k), W)
        e.prove("DetermineDataType/post/null", p, z3.Implies(null, z3.And(is_("Null"), T1 == ty["Null"])))
        e.prove("DetermineDataType/post/booleans", p, z3.Implies(z3.Or(true, false), z3.And(is_("Bool"), T1 == ty["Bool"], d1 == z3.If(true, BV(1, 8), BV(0, 8)))))
        e.prove("DetermineDataType/post/reals", p, z3.Implies(z3.Or(real, big), z3.And(is_("Real"), T1 == ty["Real"], d8 == z3.fpToIEEEBV(RVAL(*key)))))
        e.prove("DetermineDataType/post/malformed numbers are not accepted", p, z3.Not(bad))
        e.prove("DetermineDataType/post/other words are left to the caller", p, z3.Implies(z3.And(nokw, cl == 2), is_("Unknown")))
        if len(tk) >= 1: g1, t1, m1, x1 = tk[0]
        if len(tk) == 2: g2, t2, m2, x2 = tk[1]
        second = z3.And(g1, t1 == TT("Literal"), IEC(x1, BV(0, 64), m1) == 0) if tk else z3.BoolVal(False)
        isref = z3.And(second, g2, t2 == TT("Literal"), lit_is(x2, m2, "R")) if len(tk) == 2 else z3.BoolVal(False)
        e.prove("DetermineDataType/post/numbers", p, z3.Implies(z3.And(num, z3.Not(isref)), z3.And(is_("Number"), T1 == ty["Number"], d8 == IVAL(*key))))
        if len(tk) == 2:
            e.prove("DetermineDataType/post/references", p, z3.Implies(isref, z3.And(num, is_("Reference"), T1 == ty["Reference"], p.fld(D, RF, "m_ObjectNo") == z3.Extract(31, 0, IVAL(*key)), p.fld(D, RF, "m_GenerationNo") == z3.Extract(15, 0, IVAL(x1, BV(0, 64), m1)))))
        e.prove("DetermineDataType/post/looks ahead only after a number and only as far as needed", p, z3.And(z3.BoolVal(len(tk) == 0) if True else None, z3.BoolVal(True)) if not tk else z3.And(num, rr == 1, second if len(tk) == 2 else z3.BoolVal(True)))
        e.prove("DetermineDataType/post/a number that may be a reference is looked at further", p, z3.Implies(z3.And(num, rr == 1), z3.BoolVal(len(tk) >= 1) if len(tk) != 1 else z3.Not(second)))
        want = []   # tokens that have to be kept
        if len(tk) == 1: alts = [(g1, ((x1, m1, t1),)), (z3.Not(g1), ())]
        elif len(tk) == 2: alts = [(isref, ()), (z3.And(z3.Not(isref), g2), ((x1, m1, t1), (x2, m2, t2))), (z3.And(z3.Not(isref), z3.Not(g2)), ((x1, m1, t1),))]
        else: alts = [(z3.BoolVal(True), ())]
        e.prove("DetermineDataType/post/tokens read ahead are kept in order", p, z3.And(*[z3.Implies(c, z3.And(z3.BoolVal(len(q) == len(w)), *([same_q(a, b[0], b[1], b[2]) for a, b in zip(q, w)] if len(q) == len(w) else []))) for c, w in alts]))
    ql = u.engine("lemma/"); c = z3.BitVec("c", 8)
    ql.prove("a word with another character stays one", None, cls_step([BV(2, 8)], c)[0] == 2)
    # other tokens
    for tok, res in (("DoubleAngleBracketsLeft", "Dictionary"), ("SquareBracketLeft", "Array"), ("ParenthesisLeft", "String"), ("AngleBracketLeft", "HexString"), ("Slash", "Name")):
        e2 = u.engine(""); st2 = State(e2); th = st2.new_region("tokenizer", u.m.sizeof(TK)); d2 = st2.new_region("dev", 64); v2 = st2.new_region("view", 16); vr = st2.new_region("variant", u.m.sizeof(VA))
        ps = e2.run(F, [th, d2, v2, BV(TT(tok), 32), vr], st2); finals(e2, ps, "DetermineDataType"); nothrow(e2, ps, "DetermineDataType")
        for p in ps: e2.prove("DetermineDataType/post/%s starts a %s" % (tok, res), p, p.ret == BV(lt(res), p.ret.size()))

@proof("dispatch")
def dispatch(u):
    """tryReadDataType: scalars are complete, everything else is handed to its reader once"""
    LT = TK + "::PdfLiteralDataType"
    readers = {"Dictionary": "ReadDictionary", "Array": "ReadArray", "String": "ReadString", "HexString": "ReadHexString", "Name": "ReadName"}
    e = u.engine(""); st = State(e); this = st.new_region("tokenizer", u.m.sizeof(TK)); dev = st.new_region("dev", 64); var = st.new_region("variant", 64); enc = st.new_region("enc", 64)
    dt = z3.BitVec("type", 32); st.ghost[("calls",)] = (); use_guard(e)
    for k, f in readers.items():
        def h(en, s, a, i, f=f):
            ok = a[1].rid == dev.rid and a[2].rid == var.rid and (len(a) < 4 or a[3].rid == enc.rid)
            s.ghost[("calls",)] = s.ghost[("calls",)] + ((f, ok),)
        e.intercepts.insert(0, (rx(r"^mm::PdfTokenizer::%s\(" % f), h))
    ps = e.run(u.m.find(TK + "::tryReadDataType"), [this, dev, dt, var, enc], st); finals(e, ps, "tryReadDataType"); nothrow(e, ps, "tryReadDataType")
    for p in ps:
        c = p.ghost[("calls",)]; V = lambda k: dt == BV(enum_val(u, LT, k), 32)
        for k, f in readers.items(): e.prove("tryReadDataType/post/%s" % k, p, z3.Implies(V(k), z3.And(tobool(p.ret), z3.BoolVal(c == ((f, True),)))))
        sc = z3.Or(*[V(k) for k in ("Null", "Bool", "Number", "Real", "Reference")])
        e.prove("tryReadDataType/post/scalars are complete", p, z3.Implies(sc, z3.And(tobool(p.ret), z3.BoolVal(c == ()))))
        e.prove("tryReadDataType/post/anything else is no value", p, z3.Implies(z3.Not(z3.Or(sc, *[V(k) for k in readers])), z3.And(z3.Not(tobool(p.ret)), z3.BoolVal(c == ()))))

@proof("string stream")
def sstream(u):
    """reals are written to string streams with the precision of the stream"""
    for ty in ("float", "double"):
        F = [k for k, f in u.m.fns.items() if f["dem"].startswith("mm::PdfStringStream::operator<<(%s)" % ty)]
        e = u.engine("%s/" % ty); st = State(e); this = st.new_region("stream", u.m.sizeof("mm::PdfStringStream")); tmp = st.fptr(this, "mm::PdfStringStream", "m_temp"); str_init(st, tmp, z3.BitVec("oldlen", 64))
        os = st.new_region("ostream", 512); vt = st.new_region("vtable", 128); st.wr(os, 8, padd(vt, 64)); st.wr(padd(vt, 40), 8, BV(0, 64))
        st.wr(st.fptr(this, "mm::PdfStringStream", "m_stream"), 8, os)
        pr = z3.BitVec("precision", 64); v = z3.FP("v", z3.Float32() if ty == "float" else z3.Float64()); st.assume(z3.ULE(pr, 65535))
        e.intercepts.insert(0, (rx(r"^std::ios_base::precision\(\)"), lambda en, s, a, i: pr))
        e.intercepts.insert(0, (rx(r"^std::unique_ptr<.*>::operator(\*|->)\(\)|^std::unique_ptr<.*>::get\(\)"), lambda en, s, a, i: os))
        def f(en, s, a, i): s.ghost[("f",)] = (a[0], a[1], a[2])
        e.intercepts.insert(0, (rx(r"^utls::FormatTo\(.*, (float|double), unsigned short\)"), f))
        def out(en, s, a, i): s.ghost[("out",)] = a[1]; return a[0]
        e.intercepts.insert(0, (rx(r"operator<< ?<char"), out))
        ps = e.run(F[0], [this, v], st); finals(e, ps, "operator<<"); nothrow(e, ps, "operator<<")
        for p in ps:
            g = p.ghost.get(("f",)); o = p.ghost.get(("out",))
            e.prove("operator<</post/formatted with the precision of the stream and written", p, z3.And(g[1] == v, z3.ZeroExt(48, g[2]) == pr, z3.BoolVal(g[0].rid == tmp.rid and o is not None and o.rid == tmp.rid)) if g else z3.BoolVal(False))
