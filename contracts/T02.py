"""T02 text encodings. Texts are sequences of code points CP(0..N): their UTF-8, UTF-16 and PDFDocEncoding forms are functions of the number of code points."""
from engine.api import *
from contracts.tokcommon import enum_val
from contracts.common import *
TUS = ["private/PdfEncodingPrivate.cpp", "base/PdfString.cpp", "private/PdfDeclarationsPrivate.cpp"]
LEVEL = "proof"
BOUNDED_NOTE = "native: every code point alone and seeded texts over all planes, over PDFDocEncoding and starting with marker characters: kept by strings, written and read back, plain and as UTF-16 in both orders and UTF-8; every code of PDFDocEncoding against the table of the specification"
TRUSTED = ["std::unordered_map finds what was stored under a key", "a function-local static is constructed before its first use", "std::string, std::u16string and std::string_view as in the C++ standard", "std::shared_ptr holds the pointer it was given", "texts given to the library are valid UTF-8 and shorter than 2^30 bytes", "u16string byte order is swapped as proved under D02"]
UNITS, BOUNDED, proof, bounded = registry()
PS = "mm::PdfString"; SD = PS + "::StringData"
B64, B32, B8 = z3.BitVecSort(64), z3.BitVecSort(32), z3.BitVecSort(8)
REF = list(range(0x18)) + [0x2D8, 0x2C7, 0x2C6, 0x2D9, 0x2DD, 0x2DB, 0x2DA, 0x2DC] + list(range(0x20, 0x7F)) + [0] + [0x2022, 0x2020, 0x2021, 0x2026, 0x2014, 0x2013, 0x192, 0x2044, 0x2039, 0x203A, 0x2212, 0x2030, 0x201E, 0x201C, 0x201D, 0x2018, 0x2019, 0x201A, 0x2122, 0xFB01, 0xFB02, 0x141, 0x152, 0x160, 0x178, 0x17D, 0x131, 0x142, 0x153, 0x161, 0x17E, 0, 0x20AC] + list(range(0xA1, 0xAD)) + [0] + list(range(0xAE, 0x100))
INV = {cp: i for i, cp in enumerate(REF) if cp or i == 0}
def tab(c):
    """the character of a code"""
    r = BV(0, 32)
    for i, cp in enumerate(REF):
        if cp != i: r = z3.If(c == i, BV(cp, 32), r)
    return z3.If(z3.Or(*[c == i for i, cp in enumerate(REF) if cp != i]), r, z3.ZeroExt(24, c))
def defd(cp): return z3.Or(*[cp == k for k in INV])
def inv(cp):
    r = z3.Extract(7, 0, cp)
    for k, i in INV.items():
        if k != i: r = z3.If(cp == k, BV(i, 8), r)
    return r
CP = z3.Function("code_point", B64, B32); OFF = z3.Function("utf8_offset", B64, B64); OFW = z3.Function("utf16_offset", B64, B64)
U8S, DOCS, W16 = (z3.Function(n, B64, Bytes) for n in ("utf8_text", "pdfdoc_text", "utf16_text"))
DSAME = z3.Function("codes_are_ascii", B64, z3.BoolSort()); FIT = z3.Function("fits_pdfdoc", B64, z3.BoolSort()); SAME = z3.Function("same_as_ascii", B64, z3.BoolSort())
def valid(cp): return z3.And(z3.ULE(cp, 0x10FFFF), z3.Not(z3.And(z3.UGE(cp, 0xD800), z3.ULE(cp, 0xDFFF))))
def x8(v): return simp(z3.Extract(7, 0, v))
def enc8(cp):
    """length and bytes of a code point in UTF-8"""
    sh = lambda n: z3.LShR(cp, n); t = lambda n: x8((sh(n) & 0x3F) | 0x80)
    forms = [[x8(cp)], [x8(sh(6) | 0xC0), t(0)], [x8(sh(12) | 0xE0), t(6), t(0)], [x8(sh(18) | 0xF0), t(12), t(6), t(0)]]
    return [z3.ULT(cp, 0x80), z3.ULT(cp, 0x800), z3.ULT(cp, 0x10000), z3.BoolVal(True)], forms
def pick(conds, vals):
    r = vals[-1]
    for c, v in list(zip(conds, vals))[-2::-1]: r = z3.If(c, v, r)
    return r
def len8(cp): c, f = enc8(cp); return pick(c, [BV(len(x), 64) for x in f])
def app8(seq, cp):
    c, f = enc8(cp); out = []
    for x in f:
        s = seq
        for b in x: s = snoc(s, b)
        out.append(s)
    return pick(c, out)
def units(cp):
    v = cp - 0x10000; return [z3.ULT(cp, 0x10000), z3.BoolVal(True)], [[simp(z3.Extract(15, 0, cp))], [simp(z3.Extract(15, 0, z3.LShR(v, 10) + 0xD800)), simp(z3.Extract(15, 0, (v & 0x3FF) + 0xDC00))]]
def app16(seq, cp, big):
    c, f = units(cp); out = []
    for x in f:
        s = seq
        for w in x:
            hi, lo = simp(z3.Extract(15, 8, w)), simp(z3.Extract(7, 0, w))
            for b in ((hi, lo) if big else (lo, hi)): s = snoc(s, b)
        out.append(s)
    return pick(c, out)
def in8(arr, at, cp):
    c, f = enc8(cp); return z3.And(*[z3.Implies(z3.And(cc, *[z3.Not(x) for x in c[:i]]), z3.And(*[z3.Select(arr, at + j) == b for j, b in enumerate(x)])) for i, (cc, x) in enumerate(zip(c, f))])
def in16(arr, at, cp, big):
    c, f = units(cp); one = lambda a, w: z3.And(z3.Select(arr, a + (0 if big else 1)) == z3.Extract(15, 8, w), z3.Select(arr, a + (1 if big else 0)) == z3.Extract(7, 0, w))
    return z3.If(c[0], one(at, f[0][0]), z3.And(one(at, f[1][0]), one(at + 2, f[1][1])))
def len16(cp): return z3.If(z3.ULT(cp, 0x10000), BV(2, 64), BV(4, 64))
class Text:
    """the text of N code points; arr holds its UTF-8 form, warr its UTF-16 form, darr its codes"""
    def __init__(self, st, arr=None, warr=None, darr=None, big=True):
        self.N = z3.BitVec("N", 64); self.arr, self.warr, self.darr, self.big = arr, warr, darr, big; st.assume(z3.ULE(self.N, BV(1 << 30, 64)))
    def facts(self, k):
        """the definitions at 0 and from k to k + 1, and that offsets grow"""
        N, c, k1, z = self.N, CP(k), simp(k + 1), BV(0, 64)
        step = [valid(c), OFF(k1) == OFF(k) + len8(c), OFW(k1) == OFW(k) + len16(c), U8S(k1) == app8(U8S(k), c), W16(k1) == app16(W16(k), c, self.big), DOCS(k1) == snoc(DOCS(k), inv(c)),
                FIT(k1) == z3.And(FIT(k), defd(c)), SAME(k1) == z3.And(SAME(k), z3.ULT(c, 0x80), inv(c) == z3.Extract(7, 0, c)), z3.ULE(OFF(k1), OFF(N)), z3.ULE(OFW(k1), OFW(N)), z3.ULT(OFF(k), BV(1 << 40, 64)), z3.Implies(FIT(N), FIT(k1)), z3.Implies(SAME(N), SAME(k1))]
        if self.arr is not None: step.append(in8(self.arr, OFF(k), c))
        if self.warr is not None: step.append(in16(self.warr, OFW(k), c, self.big))
        if self.darr is not None: d = z3.Select(self.darr, k); step += [c == tab(d), DSAME(k1) == z3.And(DSAME(k), z3.ULT(c, 0x80), c == z3.ZeroExt(24, d)), z3.Implies(DSAME(N), DSAME(k1))]
        return [OFF(z) == 0, OFW(z) == 0, U8S(z) == NIL, W16(z) == NIL, DOCS(z) == NIL, FIT(z), SAME(z), DSAME(z), z3.ULE(OFF(N), BV(1 << 32, 64)), z3.ULE(OFW(N), BV(1 << 32, 64)), z3.Implies(z3.ULT(k, N), z3.And(*step))]
def view(st, p, n, name="view"):
    v = st.new_region(name, 16); st.wr(v, 8, n); st.wr(padd(v, 8), 8, p); return v
def use_next(e, T, base):
    """utf8::next: the next code point of the text (proved under 'decoding UTF-8')"""
    def h(en, s, a, i):
        it, end, k = en.load(s, a[0], 8, "ptr"), a[1], s.ghost[("k",)]
        if not s.dry: en.prove("%s/pre of utf8::next" % T.what, s, z3.And(z3.BoolVal(it.rid == base.rid), it.off == OFF(k), z3.ULT(k, T.N), end.off == OFF(T.N)), extra=T.facts(k))
        for f in T.facts(k): s.assume(f)
        s.wr(a[0], 8, Ptr(base.rid, OFF(simp(k + 1)))); s.ghost[("k",)] = simp(k + 1); return CP(k)
    e.intercepts.insert(0, (rx(r"utf8::next<char( const)?\*>\("), h))
def use_map(e, u):
    """the map from characters to codes (contents proved under 'map')"""
    e.intercepts.insert(0, (rx(r"^getUTF8ToPdfEncodingMap\(\)$"), lambda en, s, a, i: e.mapobj))
    def find(en, s, a, i):
        c = en.load(s, a[1], 4)
        def hit(s2): n = s2.new_region("node", 16, sym=True); s2.wr(n, 4, c); s2.wr(padd(n, 4), 1, inv(c)); return n
        return Fork([(defd(c), hit), (z3.Not(defd(c)), lambda s2: Ptr(0, 0))])
    MP = r"^std::unordered_map<char32_t, char, .*>::"
    e.intercepts.insert(0, (rx(MP + r"find\(char32_t const&\) const"), find))
    e.intercepts.insert(0, (rx(MP + r"end\(\) const"), lambda en, s, a, i: Ptr(0, 0)))
    e.intercepts.insert(0, (rx(r"_Node_const_iterator<std::pair<char32_t const, char>, false, false>::operator->\(\) const"), lambda en, s, a, i: en.load(s, a[0], 8, "ptr")))
def text8(u, e, st, what):
    T = Text(st); T.what = what; n = OFF(T.N); src, arr = st.buffer("text", n); T.arr = arr; st.assume(z3.ULE(n, BV(1 << 32, 64))); st.ghost[("k",)] = BV(0, 64)
    use_next(e, T, src); e.mapobj = st.new_region("map", 64)
    for f in T.facts(BV(0, 64)): st.assume(f)
    return T, src, view(st, src, n)

@proof("table")
def table(u):
    e = u.engine(""); st = State(e); g = [k for k in u.m.globals if "s_cEncoding" in k]
    if len(g) != 1: raise Unsupported("table not found")
    p = e.gptr(st, g[0], BV(0, 64))
    for i in range(256): e.prove("code %d/post/character of the specification's table" % i, st, e.load(st, padd(p, 4 * i), 4, check=False) == REF[i])
    q = u.engine("lemma/"); c, cp = z3.BitVec("c", 8), z3.BitVec("cp", 32)
    q.prove("a character with a code is the character of its code", None, z3.Implies(defd(cp), tab(inv(cp)) == cp))
    q.prove("the code of the character of a code is the code", None, z3.Implies(z3.Or(tab(c) != 0, c == 0), z3.And(defd(tab(c)), inv(tab(c)) == c)))
@proof("map")
def themap(u):
    e = u.engine(""); st = State(e); F = u.m.find("getUTF8ToPdfEncodingMap()::Map::Map"); this = st.new_region("map", 64, sym=True); slots = {}
    e.intercepts.insert(0, (rx(r"^std::unordered_map<char32_t, char, .*>::(~?unordered_map)\(\)"), lambda en, s, a, i: None))
    def at(en, s, a, i):
        k = en.load(s, a[1], 4)
        if not isc(k): raise Unsupported("symbolic key")
        k = cval(k)
        if k not in slots: slots[k] = s.new_region("slot", 1, sym=True)
        return slots[k]
    e.intercepts.insert(0, (rx(r"^std::unordered_map<char32_t, char, .*>::operator\[\]\("), at))
    ps = e.run(F, [this], st); finals(e, ps, "Map"); nothrow(e, ps, "Map")
    for p in ps:
        e.prove("Map/post/holds exactly the characters of the table", p, z3.BoolVal(set(slots) == set(INV)))
        e.prove("Map/post/each with its code", p, z3.And(*[p.rd(q, 1) == INV[k] for k, q in slots.items() if k in INV]))
@proof("decoding UTF-8")
def decoding(u):
    fs = [k for k, f in u.m.fns.items() if not f["decl"] and re.search(r"utf8::next<char( const)?\*>\(", f["dem"])]
    u.engine("").prove("utf8::next/versions found", None, z3.BoolVal(len(fs) >= 1))
    for F in fs:
        tag = "next<%s>" % ("const" if "const*>" in u.m.fns[F]["dem"] else "char")
        e = u.engine(""); st = State(e); n, o, cp = z3.BitVec("n", 64), z3.BitVec("o", 64), z3.BitVec("cp", 32); st.assume(z3.And(z3.ULE(n, BV(1 << 40, 64)), valid(cp), z3.ULE(o, n), z3.ULE(o + len8(cp), n)))
        src, arr = st.buffer("text", n); st.assume(in8(arr, o, cp)); it = st.new_region("it", 8); st.wr(it, 8, padd(src, o))
        ps = e.run(F, [it, padd(src, n)], st); finals(e, ps, tag); nothrow(e, ps, tag)
        for p in ps: q = p.rd(it, 8, "ptr"); e.prove(tag + "/post/the code point", p, p.ret == cp); e.prove(tag + "/post/behind it", p, z3.And(z3.BoolVal(q.rid == src.rid), q.off == o + len8(cp)))
@proof("encoding UTF-8")
def encoding(u):
    F = u.m.find("utf8::append(char32_t, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>&)")
    e = u.engine(""); st = State(e); cp = z3.BitVec("cp", 32); st.assume(valid(cp)); o = st.new_region("out", 32); str_init(st, o, z3.BitVec("n0", 64)); q0 = str_seq(st, o)
    ps = e.run(F, [cp, o], st); finals(e, ps, "append"); nothrow(e, ps, "append")
    for p in ps: e.prove("append/post/the bytes of the code point", p, str_seq(p, o) == app8(q0, cp))
    q = u.engine("lemma/"); a, b = z3.BitVec("a", 32), z3.BitVec("b", 32)
    q.prove("different code points have different bytes", None, z3.Implies(z3.And(valid(a), valid(b), app8(NIL, a) == app8(NIL, b)), a == b))
    q.prove("a character coded as itself is its own byte", None, z3.Implies(z3.And(z3.ULT(a, 0x80), inv(a) == z3.Extract(7, 0, a)), app8(NIL, a) == snoc(NIL, inv(a))))
def kfacts(T): return lambda h: T.facts(h.st.ghost[("k",)])
@proof("to PDFDocEncoding")
def todoc(u):
    for F, nm in ((u.m.find("mm::CheckValidUTF8ToPdfDocEcondingChars"), "CheckValid"), (u.m.find("mm::TryConvertUTF8ToPdfDocEncoding"), "TryConvert")):
        e = u.engine(""); st = State(e); T, src, v = text8(u, e, st, nm); use_map(e, u); out = st.new_region("out", 32); asc = st.new_region("ascii", 1)
        if nm == "TryConvert": str_init(st, out, z3.BitVec("n0", 64))
        N = T.N
        def inv_(h, nm=nm):
            k = h.st.ghost[("k",)]; r = [("within the text", z3.And(z3.ULE(k, N), FIT(k), h.cursor(src.rid) == OFF(k)))]
            if nm == "TryConvert": r.append(("codes so far", str_seq(h.st, out) == DOCS(k)))
            else: r.append(("plain so far", tobool(h.st.rd(asc, 1)) == SAME(k)))
            return r
        ps = e.run(F, [v, out if nm == "TryConvert" else asc], st, [LoopSpec(inv=inv_, facts=kfacts(T))]); finals(e, ps, nm); nothrow(e, ps, nm)
        for p in ps:
            e.prove(nm + "/post/reports whether every character has a code", p, tobool(p.ret) == FIT(N))
            if nm == "TryConvert": e.prove(nm + "/post/the codes, or nothing", p, str_seq(p, out) == z3.If(FIT(N), DOCS(N), NIL))
            else: e.prove(nm + "/post/reports whether it is plain ASCII", p, tobool(p.rd(asc, 1)) == z3.And(FIT(N), SAME(N)))
    e = u.engine(""); st = State(e); T, src, v = text8(u, e, st, "Convert"); ret = st.new_region("ret", 32)
    def tc(en, s, a, i):
        def yes(s2): str_init(s2, a[1], z3.BitVec("dl", 64), seq=DOCS(T.N)); return z3.BoolVal(True)
        def no(s2): str_clear(s2, a[1]); return z3.BoolVal(False)
        return Fork([(FIT(T.N), yes), (z3.Not(FIT(T.N)), no)])
    e.contracts[u.m.find("mm::TryConvertUTF8ToPdfDocEncoding")] = tc
    ps = e.run(u.m.find("mm::ConvertUTF8ToPdfDocEncoding"), [ret, v], st); finals(e, ps, "Convert")
    for p in ps:
        if p.kind == "throw": e.prove("Convert/post/raises only if a character has no code", p, z3.Not(FIT(T.N)))
        else: e.prove("Convert/post/the codes", p, z3.And(FIT(T.N), str_seq(p, ret) == DOCS(T.N)))

@proof("from PDFDocEncoding")
def fromdoc(u):
    F = [k for k, f in u.m.fns.items() if f["dem"].startswith("mm::ConvertPdfDocEncodingToUTF8(") and f["dem"].count("&") == 3]
    if len(F) != 1: raise Unsupported("ConvertPdfDocEncodingToUTF8: %d definitions" % len(F))
    e = u.engine(""); st = State(e); T = Text(st); T.what = "FromDoc"; src, arr = st.buffer("codes", T.N); T.darr = arr; v = view(st, src, T.N); out = st.new_region("out", 32); str_init(st, out, z3.BitVec("n0", 64)); asc = st.new_region("ascii", 1)
    for f in T.facts(BV(0, 64)): st.assume(f)
    def app(en, s, a, i):
        k = ("strseq",) + okey(a[1])
        if not s.dry: en.prove("FromDoc/pre of utf8::append", s, valid(a[0]))
        s.ghost[k] = app8(s.ghost[k], a[0]); str_setlen(s, a[1], str_len(s, a[1]) + len8(a[0]))
    e.contracts[u.m.find("utf8::append(char32_t, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>&)")] = app
    g = [k for k in u.m.globals if "s_cEncoding" in k][0]; tp = e.gptr(st, g, BV(0, 64)); r = st.wregion(tp); r.cells = {}; tarr = z3.Const("table", ARR); r.arr = tarr
    def entry(d): o = z3.ZeroExt(56, d) * 4; return z3.Concat(*[z3.Select(tarr, simp(o + j)) for j in (3, 2, 1, 0)]) == tab(d)   # proved under 'table'
    T.entry = lambda k: [entry(z3.Select(arr, k))]
    ps = e.run(F[0], [v, out, asc], st, [LoopSpec(inv=lambda h: [("text so far", z3.And(z3.ULE(h.k, T.N), str_seq(h.st, out) == U8S(h.k))), ("plain so far", tobool(h.st.rd(asc, 1)) == DSAME(h.k))], facts=lambda h: T.facts(h.k) + T.entry(h.k))]); finals(e, ps, "FromDoc"); nothrow(e, ps, "FromDoc")
    for p in ps: e.prove("FromDoc/post/the characters of the codes", p, str_seq(p, out) == U8S(T.N)); e.prove("FromDoc/post/reports whether it is plain ASCII", p, tobool(p.rd(asc, 1)) == DSAME(T.N))
    e = u.engine(""); st = State(e); T = Text(st); T.what = "Coincident"; src, arr = st.buffer("codes", T.N); T.darr = arr; v = view(st, src, T.N)
    for f in T.facts(BV(0, 64)): st.assume(f)
    tp = e.gptr(st, g, BV(0, 64)); r = st.wregion(tp); r.cells = {}; r.arr = tarr
    ps = e.run(u.m.find("mm::IsPdfDocEncodingCoincidentToUTF8"), [v], st, [LoopSpec(inv=lambda h: [("plain so far", z3.And(z3.ULE(h.k, T.N), DSAME(h.k)))], facts=lambda h: T.facts(h.k) + [entry(z3.Select(arr, h.k))])]); finals(e, ps, "Coincident"); nothrow(e, ps, "Coincident")
    for p in ps: e.prove("Coincident/post/exactly if every code is an ASCII character of the same value", p, tobool(p.ret) == DSAME(T.N))
    q = u.engine("lemma/"); c = z3.BitVec("c", 8); q.prove("characters of codes are valid", None, valid(tab(c)))
    q.prove("a code is plain if its character is itself", None, z3.Implies(z3.ULT(tab(c), 0x80), z3.Or(tab(c) == 0, tab(c) == z3.ZeroExt(24, c))))
@proof("UTF-8 to UTF-16")
def to16(u):
    F = [k for k, f in u.m.fns.items() if not f["decl"] and "utf8::utf8to16<std::back_insert_iterator<std::__cxx11::basic_string<char16_t" in f["dem"]]
    if len(F) != 1: raise Unsupported("utf8to16: %d definitions" % len(F))
    e = u.engine(""); st = State(e); T, src, v = text8(u, e, st, "utf8to16"); out = st.new_region("u16string", 32); st.ghost[("u16",)] = NIL
    use_u16(e)
    ps = e.run(F[0], [src, padd(src, OFF(T.N)), out], st, [LoopSpec(inv=lambda h: [("units so far", z3.And(z3.ULE(h.st.ghost[("k",)], T.N), h.cursor(src.rid) == OFF(h.st.ghost[("k",)]), h.st.ghost[("u16",)] == W16(h.st.ghost[("k",)])))], facts=lambda h: T.facts(h.st.ghost[("k",)]) + [z3.Implies(z3.ULT(h.st.ghost[("k",)], T.N), z3.ULT(OFF(h.st.ghost[("k",)]), OFF(T.N)))])])
    finals(e, ps, "utf8to16"); nothrow(e, ps, "utf8to16")
    for p in ps: e.prove("utf8to16/post/the UTF-16 form of the text", p, p.ghost[("u16",)] == W16(T.N))
def use_u16(e):
    def push(en, s, v): s.ghost[("u16",)] = snoc(snoc(s.ghost[("u16",)], simp(z3.Extract(15, 8, v))), simp(z3.Extract(7, 0, v)))
    BI = r"^std::back_insert_iterator<std::__cxx11::basic_string<char16_t.*>::operator"
    e.intercepts.insert(0, (rx(BI + r"=\(char16_t( const&|&&)\)"), lambda en, s, a, i: (push(en, s, en.load(s, a[1], 2)), a[0])[1]))
    e.intercepts.insert(0, (rx(r"^std::__cxx11::basic_string<char16_t.*>::push_back\(char16_t\)"), lambda en, s, a, i: push(en, s, a[1])))
@proof("UTF-16 to UTF-8")
def from16(u):
    for nm, big in (("ReadUtf16BEString", True), ("ReadUtf16LEString", False)):
        e = u.engine(""); st = State(e); T = Text(st, big=big); T.what = nm; n = OFW(T.N); src, arr = st.buffer("text", n); T.warr = arr; st.assume(z3.And(z3.ULE(n, BV(1 << 32, 64)), n & 1 == 0))
        for f in T.facts(BV(0, 64)): st.assume(f)
        fs = [k for k, f in u.m.fns.items() if not f["decl"] and f["dem"].startswith("utls::" + nm)]
        if len(fs) != 1: raise Unsupported(nm)
        sp = span(u, st, src, n); out = st.new_region("out", 32); str_init(st, out, BV(0, 64), seq=NIL)
        def inv_(h):
            return [("text so far", z3.And(z3.ULE(h.k, T.N), h.ptrs(src.rid)[1].off == OFW(h.k), str_seq(h.st, out) == U8S(h.k)))]
        ps = e.run(fs[0], [sp, out], st, [LoopSpec(inv=inv_, facts=lambda h: T.facts(h.k) + [z3.Implies(z3.ULT(h.k, T.N), z3.ULT(OFW(h.k), OFW(T.N)))])])
        finals(e, ps, nm); nothrow(e, ps, nm)
        for p in ps: e.prove(nm + "/post/the UTF-8 form of the text", p, str_seq(p, out) == U8S(T.N))
def span(u, st, p, n):
    r = st.new_region("span", 16); st.wr(r, 8, p); st.wr(padd(r, 8), 8, n); return r
MARKS = {"utf16be": (0xFE, 0xFF), "utf16le": (0xFF, 0xFE), "utf8": (0xEF, 0xBB, 0xBF)}
def starts(at, n, m): return z3.And(z3.UGE(n, len(m)), *[at(j) == b for j, b in enumerate(m)])
def encs(u): return {x: enum_val(u, "StringEncoding", x) for x in ("utf8", "utf16be", "utf16le", "PdfDocEncoding")}
@proof("markers")
def markers(u):
    e = u.engine(""); st = State(e); n = z3.BitVec("n", 64); st.assume(z3.ULE(n, BV(1 << 40, 64))); src, arr = st.buffer("data", n); v = view(st, src, n); E = encs(u); at = lambda j: z3.Select(arr, j)
    ps = e.run(u.m.find("getEncoding"), [v], st); finals(e, ps, "getEncoding"); nothrow(e, ps, "getEncoding")
    for p in ps:
        for k, m in MARKS.items(): e.prove("getEncoding/post/%s exactly if marked so" % k, p, (p.ret == E[k]) == starts(at, n, m))
        e.prove("getEncoding/post/otherwise PDFDocEncoding", p, (p.ret == E["PdfDocEncoding"]) == z3.Not(z3.Or(*[starts(at, n, m) for m in MARKS.values()])))
def use_markers(u, e, mark):
    """getEncoding (proved under 'markers'); mark(kind, s, pointer, length): condition"""
    E = encs(u)
    def h(en, s, a, i):
        p, n = en.load(s, padd(a[0], 8), 8, "ptr"), en.load(s, a[0], 8); w = 32
        return Fork([(mark(k, s, p, n), lambda s2, k=k: BV(E[k], 32)) for k in MARKS] + [(z3.Not(z3.Or(*[mark(k, s, p, n) for k in MARKS])), lambda s2: BV(E["PdfDocEncoding"], 32))])
    e.contracts[u.m.find("getEncoding")] = h
MARKED = {k: z3.Function("codes_start_like_" + k, B64, z3.BoolSort()) for k in MARKS}
STATES = ("RawBuffer", "Ascii", "PdfDocEncoding", "Unicode")
@proof("new strings")
def newstring(u):
    SV = {x: enum_val(u, "mm::PdfStringState", x) for x in STATES}
    e = u.engine(""); st = State(e); T, src, v = text8(u, e, st, "new"); N = T.N; this = st.new_region("string", u.m.sizeof(PS)); made = {}
    st.assume((OFF(N) == 0) == (N == 0)); st.assume(z3.Or(N == 0, OFF(N) != 0))
    def cv(en, s, a, i): s.wr(a[1], 1, simp(z3.If(z3.And(FIT(N), SAME(N)), BV(1, 8), BV(0, 8)))); return FIT(N)
    def chk(en, s, a): 
        p, n = en.load(s, padd(a, 8), 8, "ptr"), en.load(s, a, 8)
        if not s.dry: en.prove("initFromUtf8String/the whole text is looked at", s, z3.And(z3.BoolVal(p.rid == src.rid), p.off == 0, n == OFF(N)))
    e.contracts[u.m.find("mm::CheckValidUTF8ToPdfDocEcondingChars")] = lambda en, s, a, i: (chk(en, s, a[0]), cv(en, s, a, i))[1]
    def conv(en, s, a, i):
        chk(en, s, a[1])
        if not s.dry: en.prove("initFromUtf8String/pre of ConvertUTF8ToPdfDocEncoding", s, FIT(N))
        b = str_init(s, a[0], N, seq=DOCS(N)); s.ghost[("docs",)] = b.rid
    e.contracts[u.m.find("mm::ConvertUTF8ToPdfDocEncoding")] = conv
    def mark(k, s, p, n):
        if p.rid != s.ghost.get(("docs",)): raise Unsupported("markers of another text")
        return MARKED[k](N)
    use_markers(u, e, mark)
    for a in MARKS:
        for b in MARKS:
            if a < b: st.assume(z3.Not(z3.And(MARKED[a](N), MARKED[b](N))))
    def buf(en, s, a, i): chk(en, s, a[1]); str_init(s, a[0], OFF(N), seq=U8S(N))
    e.intercepts.insert(0, (rx(r"^mm::charbuff_t<void>::charbuff_t\(std::basic_string_view"), buf)); e.intercepts.insert(0, (rx(r"^mm::charbuff_t<void>::charbuff_t\(\)"), lambda en, s, a, i: (str_init(s, a[0], BV(0, 64), seq=NIL), None)[1]))
    e.intercepts.insert(0, (rx(r"std::__shared_ptr<mm::PdfString::StringData.*>::reset<"), lambda en, s, a, i: s.wr(a[0], 8, a[1])))
    ps = e.run(u.m.find(PS + "::initFromUtf8String"), [this, v], st); finals(e, ps, "initFromUtf8String"); nothrow(e, ps, "initFromUtf8String")
    for p in ps:
        d = p.rd(p.fptr(this, PS, "m_data"), 8, "ptr"); S = p.fld(d, SD, "State"); w = z3.Or(*[MARKED[k](N) for k in MARKS]); plain = z3.And(FIT(N), SAME(N)); doc = z3.And(FIT(N), z3.Not(SAME(N)), z3.Not(w))
        e.prove("initFromUtf8String/post/keeps the text", p, str_seq(p, p.fptr(d, SD, "Chars")) == z3.If(N == 0, NIL, U8S(N)))
        e.prove("initFromUtf8String/post/PDFDocEncoding only if every character has a code and no marker is imitated", p, (S == SV["PdfDocEncoding"]) == z3.And(N != 0, doc))
        e.prove("initFromUtf8String/post/ASCII only if every character is its own code", p, (S == SV["Ascii"]) == z3.Or(N == 0, plain))
        e.prove("initFromUtf8String/post/otherwise Unicode", p, (S == SV["Unicode"]) == z3.And(N != 0, z3.Not(plain), z3.Not(doc)))
def swap_h(en, s, a, i):
    k0, k1 = okey(a[0]), okey(a[1])
    for f in ("strlen", "strbuf", "strseq"): s.ghost[(f,) + k0], s.ghost[(f,) + k1] = s.ghost[(f,) + k1], s.ghost[(f,) + k0]
    for k in (k0, k1):
        r = s.mem[s.ghost[("strbuf",) + k]].clone(); r.owner = k; s.mem[r.rid] = r
TAIL = z3.Function("behind_first", Bytes, B64, Bytes); R16 = {b: z3.Function("text_of_utf16" + b, Bytes, Bytes) for b in ("BE", "LE")}; RDOC = z3.Function("text_of_codes", Bytes, Bytes); PLAIN = z3.Function("codes_are_plain", Bytes, z3.BoolSort())
@proof("reading strings")
def reading(u):
    SV = {x: enum_val(u, "mm::PdfStringState", x) for x in STATES}
    e = u.engine(""); st = State(e); this = st.new_region("string", u.m.sizeof(PS)); d = st.new_region("stringdata", u.m.sizeof(SD)); st.wr(st.fptr(this, PS, "m_data"), 8, d)
    n = z3.BitVec("n", 64); st.assume(z3.ULE(n, BV(1 << 40, 64))); ch = st.fptr(d, SD, "Chars"); b = str_init(st, ch, n); raw = str_seq(st, ch); arr = e.flatten(st, str_buf(st, ch)).arr; S0 = st.fld(d, SD, "State")
    st.assume(z3.Or(*[S0 == SV[x] for x in STATES])); at = lambda j: z3.Select(arr, j)
    def mark(k, s, p, m):
        if p.rid != b.rid: raise Unsupported("markers of another text")
        if not s.dry: e.prove("evaluateString/markers are looked for at the start", s, z3.And(p.off == 0, m == n))
        return starts(at, n, MARKS[k])
    use_markers(u, e, mark)
    for a in MARKS:
        for c in MARKS:
            if a < c: st.assume(z3.Not(z3.And(starts(at, n, MARKS[a]), starts(at, n, MARKS[c]))))
    for w in ("BE", "LE"):
        fs = [k for k, f in u.m.fns.items() if not f["decl"] and f["dem"].startswith("utls::ReadUtf16%sString" % w)]
        def rd(en, s, a, i, w=w):
            p, m = en.load(s, a[0], 8, "ptr"), en.load(s, padd(a[0], 8), 8)
            if not s.dry: en.prove("evaluateString/UTF-16 is decoded behind the marker", s, z3.And(z3.BoolVal(p.rid == b.rid), p.off == 2, m == n - 2)); en.prove("evaluateString/decoded into an empty text", s, str_seq(s, a[1]) == NIL)
            str_init(s, a[1], fresh("len", 64), seq=R16[w](TAIL(raw, BV(2, 64))))
        for f in fs: e.contracts[f] = rd
    def doc(en, s, a, i):
        p, m = en.load(s, padd(a[0], 8), 8, "ptr"), en.load(s, a[0], 8)
        if not s.dry: en.prove("evaluateString/all codes are decoded", s, z3.And(z3.BoolVal(p.rid == b.rid), p.off == 0, m == n))
        str_init(s, a[1], fresh("len", 64), seq=RDOC(raw)); s.wr(a[2], 1, simp(z3.If(PLAIN(raw), BV(1, 8), BV(0, 8))))
    F3 = [k for k, f in u.m.fns.items() if f["dem"].startswith("mm::ConvertPdfDocEncodingToUTF8(") and f["dem"].count("&") == 3]
    for f in F3: e.contracts[f] = doc
    e.intercepts.insert(0, (rx(r"basic_string<char, .*>::swap\("), swap_h))
    def sub(en, s, a, i): 
        if not s.dry: en.prove("evaluateString/pre of substr", s, z3.ULE(a[2], str_len(s, a[1])))
        str_init(s, a[0], simp(str_len(s, a[1]) - a[2]), seq=TAIL(str_seq(s, a[1]), a[2]))
    e.intercepts.insert(0, (rx(r"^std::__cxx11::basic_string<char, .*>::substr\(unsigned long, unsigned long\) const"), sub))
    ps = e.run(u.m.find(PS + "::evaluateString"), [this], st); finals(e, ps, "evaluateString"); nothrow(e, ps, "evaluateString")
    for p in ps:
        sq, S = str_seq(p, ch), p.fld(d, SD, "State"); M = {k: starts(at, n, m) for k, m in MARKS.items()}; none = z3.Not(z3.Or(*M.values())); W = S0 == SV["RawBuffer"]
        want = z3.If(M["utf16be"], R16["BE"](TAIL(raw, BV(2, 64))), z3.If(M["utf16le"], R16["LE"](TAIL(raw, BV(2, 64))), z3.If(M["utf8"], TAIL(raw, BV(3, 64)), RDOC(raw))))
        e.prove("evaluateString/post/text that was decoded already stays", p, z3.Implies(z3.Not(W), z3.And(sq == raw, S == S0)))
        e.prove("evaluateString/post/the text of the bytes, decoded as marked", p, z3.Implies(W, sq == want))
        e.prove("evaluateString/post/state", p, z3.Implies(W, S == z3.If(none, z3.If(PLAIN(raw), BV(SV["Ascii"], S.size()), BV(SV["PdfDocEncoding"], S.size())), BV(SV["Unicode"], S.size()))))
@proof("writing strings")
def writing(u):
    SV = {x: enum_val(u, "mm::PdfStringState", x) for x in STATES}; seen = []
    e = u.engine(""); st = State(e); T, src, v = text8(u, e, st, "Write"); N = T.N; this = st.new_region("string", u.m.sizeof(PS)); d = st.new_region("stringdata", u.m.sizeof(SD)); st.wr(st.fptr(this, PS, "m_data"), 8, d)
    ch = st.fptr(d, SD, "Chars"); b = str_init(st, ch, OFF(N), seq=U8S(N)); S0 = st.fld(d, SD, "State"); st.assume(z3.Or(*[S0 == SV[x] for x in STATES[1:]])); st.assume(z3.Implies(S0 == SV["PdfDocEncoding"], FIT(N))); st.assume((OFF(N) == 0) == (N == 0))
    def tc(en, s, a, i):
        if not s.dry: p, m = en.load(s, padd(a[0], 8), 8, "ptr"), en.load(s, a[0], 8); en.prove("Write/the whole text is converted to codes", s, z3.And(z3.BoolVal(p.rid == b.rid), p.off == 0, m == OFF(N), FIT(N)))
        str_init(s, a[1], N, seq=DOCS(N)); return FIT(N)
    e.contracts[u.m.find("mm::TryConvertUTF8ToPdfDocEncoding")] = tc
    use_u16(e); st.ghost[("u16",)] = NIL; st.ghost[("big",)] = BV(0, 8)
    BOM = snoc(snoc(NIL, u8(0xFE)), u8(0xFF)); APP16 = z3.Function("followed_by_utf16_of_the_text", Bytes, Bytes)
    def t16(en, s, a, i):
        if not s.dry: en.prove("Write/the whole text is converted to UTF-16", s, z3.And(z3.BoolVal(a[0].rid == b.rid), a[0].off == 0, z3.BoolVal(a[1].rid == b.rid), a[1].off == OFF(N)))
        s.ghost[("u16",)] = APP16(s.ghost[("u16",)]); return a[2]
    for k, f in u.m.fns.items():
        if not f["decl"] and "utf8::utf8to16<std::back_insert_iterator<std::__cxx11::basic_string<char16_t" in f["dem"]: e.contracts[k] = t16
    e.intercepts.insert(0, (rx(r"^utls::ByteSwap\(std::__cxx11::basic_string<char16_t"), lambda en, s, a, i: s.ghost.__setitem__(("big",), simp(s.ghost[("big",)] ^ 1))))
    C = r"^std::__cxx11::basic_string<char16_t, .*>::"; L16 = z3.BitVec("units", 64); st.assume(z3.And(z3.ULE(L16, BV(1 << 40, 64)), L16 != 0)); ub = st.new_region("units", 0)
    e.intercepts.insert(0, (rx(C + r"~?basic_string\("), lambda en, s, a, i: None)); e.intercepts.insert(0, (rx(C + r"data\(\)"), lambda en, s, a, i: ub)); e.intercepts.insert(0, (rx(C + r"(size|length)\(\)"), lambda en, s, a, i: L16))
    def enc_h(en, s, a, i):
        if len(a) == 4: p, l = a[2], a[3]
        else:
            try: p, l = en.load(s, a[2], 8, "ptr"), en.load(s, padd(a[2], 8), 8)
            except Unsupported: p, l = en.load(s, padd(a[2], 8), 8, "ptr"), en.load(s, a[2], 8)
        if p.rid == ub.rid: sq, L = s.ghost[("u16",)], 2 * L16; en.prove("Write/UTF-16 is written big endian", s, s.ghost[("big",)] == 1)
        else:
            own = s.region(p).owner; sq, L = s.ghost[("strseq",) + own], s.ghost[("strlen",) + own]
        if not s.dry:
            en.prove("Write/all bytes are written", s, z3.And(p.off == 0, l == L)); S = s.fld(d, SD, "State")
            en.prove("Write/post/ASCII text is written as it is", s, z3.Implies(S == SV["Ascii"], sq == U8S(N))); en.prove("Write/post/other text with codes is written as codes", s, z3.Implies(S == SV["PdfDocEncoding"], sq == DOCS(N)))
            en.prove("Write/post/other text is written as UTF-16 behind the marker", s, z3.Implies(S == SV["Unicode"], sq == APP16(BOM)))
            seen.append(s.clone())
        return Throw("_ZTIN2mm8PdfErrorE", BV(0, 32))
    e.intercepts.insert(0, (rx(r"^mm::PdfStatefulEncrypt::EncryptTo"), enc_h)); e.intercepts.insert(0, (rx(r"^mm::PdfStatefulEncrypt::HasEncrypt"), lambda en, s, a, i: z3.BoolVal(True)))
    e.intercepts.insert(0, (rx(r"basic_string<char, .*>::swap\("), swap_h))
    dev = new_stream(st, "out"); enc = st.new_region("encrypt", 64); buffer = st.new_region("buffer", 32); str_init(st, buffer, z3.BitVec("bl", 64))
    ps = e.run(u.m.find(PS + "::Write"), [this, dev, BV(0, 32), enc, buffer], st)
    e.prove("Write/every state reaches the bytes", None, z3.BoolVal(len(seen) >= 3))
    for p in ps:
        if p.kind != "throw": e.prove("Write/post/only empty text has no bytes", p, N == 0)
