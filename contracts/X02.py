"""X02 reading cross-reference sections. The list of entries is abstracted by its size and the set of numbers already read; an entry is
read through the pointer operator[] gives."""
from engine.api import *
from contracts.tokcommon import enum_val
from contracts.common import *
TUS = ["base/PdfXRefEntry.cpp", "base/PdfXRefStreamParserObject.cpp", "base/PdfParser.cpp"]
LEVEL = "proof"
BOUNDED_NOTE = "native: files of up to four tables, streams and hybrid sections following each other, every field width, against the newest record of each number; the same files with damaged numbers, widths, counts and bytes"
TRUSTED = ["std::vector and std::set as in the C++ standard", "sscanf reads a record of ten digits, space, five digits, space and three characters as the C standard says", "devices deliver their bytes in order (D01)", "dictionaries and arrays give the values stored under a key or index", "the token buffer has room for a record (its size is fixed by the parser)"]
UNITS, BOUNDED, proof, bounded = registry()
EN, ES, SP, PA = "mm::PdfXRefEntry", "mm::PdfXRefEntries", "mm::PdfXRefStreamParserObject", "mm::PdfParser"
ERR, TY = "mm::PdfErrorCode", "mm::XRefEntryType"
def code(u, p, *names):
    c = p.exc.get("code"); return z3.Or(*[c == BV(enum_val(u, ERR, n), c.size()) for n in names]) if c is not None else z3.BoolVal(False)
def raised(p): return z3.BoolVal(p.exc.get("code") is not None)
def err(u, n): return Throw("_ZTIN2mm8PdfErrorE", BV(enum_val(u, ERR, n), 32))
def ty(u, n): return BV(enum_val(u, TY, n), 8)
def names(u, p):
    """the two unions of an entry"""
    m = u.m; return p, padd(p, 8)
def U1(s, p): return s.rd(p, 8)
def U2(s, p): return s.rd(padd(p, 8), 4)
def newentry(u, st, name="entry"):
    p = st.new_obj(name, EN); return p
VEC = r"^std::vector<mm::PdfXRefEntry, std::allocator<mm::PdfXRefEntry> ?>::"
# ---- the entry list ----------------------------------------------------------------------------------
@proof("entry list")
def elist(u):
    """Enlarge: raises for a negative size and for one beyond the allowed count, otherwise the list has at least that size and loses nothing; a new entry is unread"""
    e = u.engine(""); st = State(e); p = st.new_obj("entry", EN)
    ps = e.run([k for k, f in u.m.fns.items() if not f["decl"] and f["dem"] == EN + "::PdfXRefEntry()"][0], [p], st); finals(e, ps, "PdfXRefEntry"); nothrow(e, ps, "PdfXRefEntry")
    for q in ps: e.prove("PdfXRefEntry/post/of no type and not read", q, z3.And(z3.Not(tobool(q.fld(p, EN, "Parsed"))), q.fld(p, EN, "Type") == ty(u, "Unknown")))
    e = u.engine(""); st = State(e); this = st.new_obj("list", ES); n, S, MX = z3.BitVec("newSize", 64), z3.BitVec("size", 64), z3.BitVec("limit", 32)
    add = lambda r, h: e.intercepts.insert(0, (rx(r), h))
    st.ghost[("size",)] = S; st.assume(z3.ULT(S, BV(1 << 40, 64)))
    def resize(en, s, a, i):
        def ok(x): x.ghost[("size",)] = a[1]
        return Fork([(z3.Bool("memory"), ok), (z3.Not(z3.Bool("memory")), lambda x: Throw("_ZTISt9bad_alloc"))])
    add(VEC + r"size\(\)", lambda en, s, a, i: s.ghost[("size",)]); add(VEC + r"resize\(unsigned long\)", resize); add(r"^mm::PdfParser::GetMaxObjectCount\(\)", lambda en, s, a, i: MX)
    ps = e.run(u.m.find(ES + "::Enlarge"), [this, n], st); finals(e, ps, "Enlarge")
    for q in ps:
        sz = q.ghost[("size",)]; good = z3.And(n >= 0, n <= z3.ZeroExt(32, MX))
        if q.kind == "throw": e.prove("Enlarge/post/raises only for sizes out of range or without memory, and leaves the list", q, z3.And(raised(q), z3.Or(z3.Not(good), z3.Not(z3.Bool("memory"))), sz == S)); continue
        e.prove("Enlarge/post/only for sizes in range", q, good); e.prove("Enlarge/post/at least the size asked for, nothing lost", q, z3.And(z3.UGE(sz, n), z3.UGE(sz, S), z3.Or(sz == S, sz == n)))
    e = u.engine(""); st = State(e); this = st.new_obj("list", ES); i = z3.BitVec("index", 32); st.assume(z3.ULE(S, BV(0xFFFFFFFF, 64)))
    e.intercepts.insert(0, (rx(VEC + r"size\(\)"), lambda en, s, a, i: S))
    for q in e.run(u.m.find(ES + "::GetSize"), [this], st): e.prove("GetSize/post/the size", q, z3.ZeroExt(32, q.ret) == S if q.kind == "ret" else z3.BoolVal(False))
# ---- one entry of a stream ---------------------------------------------------------------------------
def be(bs):
    """value of bytes, most significant first"""
    return simp(z3.ZeroExt(64 - 8 * len(bs), z3.Concat(*bs) if len(bs) > 1 else bs[0])) if bs else BV(0, 64)
def stream_entry(w0):
    def f(u):
        """readXRefStreamEntry: fields of the recorded widths, most significant byte first; type 1 where none is recorded; types 0, 1, 2 as specified"""
        F = u.m.find(SP + "::readXRefStreamEntry")
        for w1 in range(5):
            for w2 in range(5):
                e = u.engine("widths %d %d %d: " % (w0, w1, w2)); st = State(e); this = st.new_obj("parser", SP); en = newentry(u, st); W = st.new_region("W", 24)
                for k, x in enumerate((w0, w1, w2)): st.wr(padd(W, 8 * k), 8, BV(x, 64))
                n = w0 + w1 + w2; b = st.new_region("record", n or 1); arr = [z3.BitVec("b%d" % i, 8) for i in range(n)]
                for i, x in enumerate(arr): st.wr(padd(b, i), 1, x)
                if not n: b = Ptr(b.rid, BV(1, 64))   # nothing may be read
                ps = e.run(F, [this, en, b, W], st); finals(e, ps, "readXRefStreamEntry")
                f = [be(arr[:w0]), be(arr[w0:w0 + w1]), be(arr[w0 + w1:])]; t = f[0] if w0 else BV(1, 64)
                for q in ps:
                    if q.kind == "throw": e.prove("readXRefStreamEntry/post/raises only for an unknown type", q, z3.And(z3.UGT(t, 2), raised(q))); continue
                    e.prove("readXRefStreamEntry/post/the recorded type", q, z3.And(z3.ULE(t, 2), z3.ZeroExt(56, q.fld(en, EN, "Type")) == t, tobool(q.fld(en, EN, "Parsed"))))
                    e.prove("readXRefStreamEntry/post/the recorded numbers", q, z3.And(U1(q, en) == f[1], z3.ZeroExt(32, U2(q, en)) == f[2]))
    return f
for w in range(5): proof("stream entry, type of %d bytes" % w)(stream_entry(w))
# ---- all entries of a stream -------------------------------------------------------------------------
SET = z3.ArraySort(z3.BitVecSort(32), z3.BoolSort())
class Entries:
    """the entry list seen from a section reader"""
    def __init__(self, u, e, st):
        self.u = u; self.e = e; self.limit = z3.BitVec("limit", 32); S = z3.BitVec("size", 64); R = z3.Const("read", SET); self.R0, self.S0 = R, S
        st.ghost[("size",)] = S; st.ghost[("read",)] = R; st.assume(z3.ULE(S, z3.ZeroExt(32, self.limit)))
        add = lambda r, h: e.intercepts.insert(0, (rx(r), h))
        def enlarge(en, s, a, i):
            n = a[1]; ok = z3.And(n >= 0, n <= z3.ZeroExt(32, self.limit), z3.Bool("memory"))
            def grow(x): o = x.ghost[("size",)]; x.ghost[("size",)] = simp(z3.If(z3.UGE(o, n), o, n))
            return Fork([(ok, grow), (z3.Not(ok), lambda x: err(u, "InvalidXRef"))])
        def at(en, s, a, i):
            k = a[1]; s.ghost[("entry",)] = k
            if not s.dry: e.prove("operator[]/pre/inside the list", s, z3.ULT(z3.ZeroExt(32, k), s.ghost[("size",)]))
            s.assume(z3.ULT(z3.ZeroExt(32, k), s.ghost[("size",)]))
            p = s.new_region("entry", 24); s.wr(padd(p, u.m.field(EN, "Parsed")[0]), 1, z3.If(z3.Select(s.ghost[("read",)], k), u8(1), u8(0))); s.ghost[("entryof", p.rid)] = k; return p
        add(r"^mm::PdfXRefEntries::Enlarge\(", enlarge); add(r"^mm::PdfXRefEntries::operator\[\]\(unsigned int\)", at)
        add(r"^mm::PdfXRefEntries::GetSize\(\)", lambda en, s, a, i: simp(z3.Extract(31, 0, s.ghost[("size",)])))
@proof("entries of a stream")
def entries(u):
    """parseStream: the records follow each other, one for every number of the sections; each is read once, completely inside of the data, into the entry of its number unless that is known; numbers out of range raise"""
    e = u.engine(""); st = State(e); this = st.new_obj("parser", SP); ents = st.new_region("entries", 24); st.setfld(this, SP, "m_entries", ents); E = Entries(u, e, st)
    W = st.new_region("W", 24); ws = [z3.BitVec("w%d" % i, 64) for i in range(3)]
    for i, x in enumerate(ws): st.wr(padd(W, 8 * i), 8, x)
    LEN = simp(ws[0] + ws[1] + ws[2])
    m = z3.BitVec("pairs", 64); st.assume(z3.ULT(m, BV(1 << 32, 64))); dat = st.new_region("indices", m << 4); vec = st.new_region("vector", 24); st.wr(vec, 8, dat); st.wr(padd(vec, 8), 8, Ptr(dat.rid, simp(m << 4)))
    n = z3.BitVec("n", 64); st.assume(z3.ULT(n, BV(1 << 40, 64))); stm = st.new_region("stream", 64); add = lambda r, h: e.intercepts.insert(0, (rx(r), h))
    first = lambda s, o: e.load(s, Ptr(dat.rid, o), 8, check=False)
    count = lambda s, o: e.load(s, Ptr(dat.rid, simp(o + 8)), 8, check=False)
    POS = z3.Function("pos", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))     # where the j-th record of section i is
    at = lambda s: (s.ghost[("loopk", "sections")], s.ghost[("loopk", "records")])
    first = lambda s, i: e.load(s, Ptr(dat.rid, simp(i << 4)), 8, check=False)
    count = lambda s, i: e.load(s, Ptr(dat.rid, simp((i << 4) + 8)), 8, check=False)
    add(r"^mm::PdfObject::GetOrCreateStream\(", lambda en, s, a, i: stm)
    begun = []
    def copy(en, s, a, i): begun.append(1); str_init(s, a[1], n); s.ghost[("data",)] = str_buf(s, a[1])
    add(r"^mm::PdfObjectStream::CopyTo\(mm::charbuff_t", copy)
    def read(en, s, a, i):
        k = s.ghost[("entryof", a[1].rid)]; R = s.ghost[("read",)]; o, ix = at(s); f = first(s, o)
        if not s.dry:
            e.prove("readXRefStreamEntry/pre/an entry that is not known yet", s, z3.Not(z3.Select(R, k)))
            e.prove("readXRefStreamEntry/pre/the record of the entry's number", s, z3.And(z3.ZeroExt(32, k) == f + ix, a[2].off == POS(o, ix)))
            e.prove("readXRefStreamEntry/pre/the record is complete", s, z3.And(z3.BoolVal(a[2].rid == s.ghost[("data",)].rid), z3.ULE(LEN, n), z3.ULE(a[2].off, n - LEN)))
            e.prove("readXRefStreamEntry/pre/widths are those of the section", s, z3.And(z3.BoolVal(a[3].rid == W.rid), *[z3.And(s.rd(padd(W, 8 * j), 8) == w, w >= 0, w <= 4) for j, w in enumerate(ws)]))
        v = fresh("valid", z3.BoolSort())
        def done(x): x.ghost[("read",)] = simp(z3.Store(R, k, True))
        return Fork([(v, done), (z3.Not(v), lambda x: err(u, "InvalidXRefType"))])
    add(r"^mm::PdfXRefStreamParserObject::readXRefStreamEntry\(", read)
    wo, wi = z3.BitVec("watched section", 64), z3.BitVec("watched record", 64); x = z3.BitVec("x", 32)
    isread = lambda s: z3.Select(s.ghost[("read",)], simp(z3.Extract(31, 0, first(s, wo) + wi)))
    ok = lambda s: z3.And(z3.ULT(wo, m), wi >= 0, wi < count(s, wo))
    common = lambda s: [("known entries stay known", z3.Implies(z3.Select(E.R0, x), z3.Select(s.ghost[("read",)], x))), ("the list only grows", z3.And(z3.UGE(s.ghost[("size",)], E.S0), z3.ULE(s.ghost[("size",)], z3.ZeroExt(32, E.limit))))]
    good = lambda s: z3.And(first(s, wo) >= 0, count(s, wo) >= 0)
    cursor = lambda h: h.cursor(h.st.ghost[("data",)].rid)
    def outer(h):
        c = cursor(h)
        return [("sections", z3.ULE(h.k, m)), ("position of the section", z3.And(c == POS(h.k, BV(0, 64)), z3.ULE(c, n))),
                ("numbers of earlier sections are read", z3.Implies(z3.And(ok(h.st), z3.ULT(wo, h.k)), isread(h.st))), ("sections in range", z3.Implies(z3.ULT(wo, h.k), good(h.st)))] + common(h.st)
    def ofacts(h): return [POS(BV(0, 64), BV(0, 64)) == 0]
    def inner(h):
        o = h.st.ghost[("loopk", "sections")]; c = cursor(h); f = first(h.st, o); cn = count(h.st, o)
        return [("numbers of the section are in the list", z3.And(f >= 0, cn >= 0, f + cn >= f, z3.ULE(f + cn, h.st.ghost[("size",)]))), ("records", z3.ULE(h.k, cn)), ("position of the record", z3.And(c == POS(o, h.k), z3.ULE(c, n))),
                ("numbers read so far", z3.Implies(z3.And(ok(h.st), z3.Or(z3.ULT(wo, o), z3.And(wo == o, z3.ULT(wi, h.k)))), isread(h.st))), ("sections in range", z3.Implies(z3.ULE(wo, o), good(h.st)))] + common(h.st)
    def ifacts(h):
        o = h.st.ghost[("loopk", "sections")]; return [POS(o, h.k + 1) == POS(o, h.k) + LEN, POS(o + 1, BV(0, 64)) == POS(o, count(h.st, o))]
    ps = e.run(u.m.find(SP + "::parseStream"), [this, W, vec], st, [LoopSpec(inv=outer, facts=ofacts, name="sections", match=lambda fn, L: bool(begun)), LoopSpec(inv=inner, facts=ifacts, name="records", depth=1)])
    finals(e, ps, "parseStream")
    for q in ps:
        bad = z3.Or(*[z3.Or(w < 0, w > 4) for w in ws])
        if q.kind == "throw": e.prove("parseStream/post/raises an error of the library", q, raised(q)); continue
        e.prove("parseStream/post/raises for fields of more than four bytes", q, z3.Not(bad))
        e.prove("parseStream/post/every number of the sections is read", q, z3.Implies(ok(q), isread(q)))
        for nm, t in common(q): e.prove("parseStream/post/" + nm, q, t)
        e.prove("parseStream/post/numbers and counts in range", q, z3.Implies(z3.ULT(wo, m), good(q)))
# ---- a section of a table ----------------------------------------------------------------------------
REC = 20
B8, B64 = z3.BitVecSort(8), z3.BitVecSort(64)
DEC10, DEC5 = z3.Function("decimal10", *([B8] * 10 + [B64])), z3.Function("decimal5", *([B8] * 5 + [z3.BitVecSort(32)]))    # value of decimal digits, as sscanf reads them
def digits(bs): return z3.And(*[inrange(b, '0', '9') for b in bs])
def wellformed(r): return z3.And(digits(r[:10]), r[10] == 32, digits(r[11:16]), r[16] == 32, *[x != 0 for x in r[17:]])
def eolok(a, b): return z3.Or(z3.And(a == 13, b == 10), z3.And(a == 10, b == 13), z3.And(a == 32, z3.Or(b == 13, b == 10)))
@proof("entries of a table")
def table(u):
    """ReadXRefSubsection: 20 bytes for every number of the section after white space; the offset (from the header), next free number, generation and type of a well-formed record are those written; known entries stay; anything else raises"""
    e = u.engine(""); st = State(e); this = st.new_obj("parser", PA); buf = st.new_region("buffer", 32); M = z3.BitVec("M", 64); str_init(st, buf, M); st.assume(z3.And(z3.UGE(M, 21), z3.ULT(M, BV(1 << 32, 64)))); st.wr(st.fptr(this, PA, "m_buffer"), 8, buf)
    n = z3.BitVec("n", 64); st.assume(z3.ULE(n, BV(1 << 40, 64))); dev, arr = new_input(st, "device", n); P = st.ghost[("inpos", dev.rid)]
    magic = st.fld(this, PA, "m_magicOffset"); E = Entries(u, e, st); add = lambda r, h: e.intercepts.insert(0, (rx(r), h))
    fo, co = st.new_region("first", 8), st.new_region("count", 8); F, C = st.rd(fo, 8), st.rd(co, 8); add(r"^mm::PdfTokenizer::IsWhitespace\(", lambda en, s, a, i: simp(is_white(a[0])))   # proved under S03
    wi = z3.BitVec("watched record", 64); we = st.new_obj("watched entry", EN); par0 = tobool(st.fld(we, EN, "Parsed")); v0 = (U1(st, we), U2(st, we), st.fld(we, EN, "Type"))
    st.assume(z3.And(wi >= 0, wi < C))
    def at(en, s, a, i):
        k = z3.ZeroExt(32, a[1]); sz = s.ghost[("size",)]
        if not s.dry: e.prove("operator[]/pre/inside the list", s, z3.ULT(k, sz)); e.prove("operator[]/pre/a number of the section", s, z3.And(k >= F, k - F < C))
        s.assume(z3.ULT(k, sz))
        return Fork([(k == F + wi, lambda x: we), (k != F + wi, lambda x: x.new_obj("entry", EN))])
    add(r"^mm::PdfXRefEntries::operator\[\]\(unsigned int\)", at)
    def read(en, s, a, i):
        pos = s.ghost[("inpos", dev.rid)]; sz = simp(a[2])
        if not isc(sz): raise Unsupported("read of any size")
        def ok(x):
            for j in range(cval(sz)): en.store(x, padd(a[1], j), 1, simp(z3.Select(arr, pos + j)))
            x.ghost[("inpos", dev.rid)] = simp(pos + sz)
        if not en.check_access(s, a[1], cval(sz), "read", i): raise PathEnd("bad")
        return Fork([(z3.ULE(pos + sz, n), ok), (z3.UGT(pos + sz, n), lambda x: err(u, "UnexpectedEOF"))])
    add(r"^mm::InputStream::Read\(char\*, unsigned long\)", read)
    def scan(en, s, a, i):
        f = b""
        while True:
            b = cval(simp(en.load(s, padd(a[1], len(f)), 1)))
            if not b: break
            f += bytes([b])
        if f != b"%10lu %5u %c%c%c": raise Unsupported("pattern %r" % f)
        r = [en.load(s, padd(a[0], j), 1) for j in range(REC)]; wf = wellformed(r)
        if not s.dry: e.prove("sscanf/pre/the record is a terminated text", s, en.load(s, padd(a[0], REC), 1) == 0)
        def ok(x):
            en.store(x, a[2], 8, DEC10(*r[:10])); en.store(x, a[3], 4, DEC5(*r[11:16]))
            for j in range(3): en.store(x, a[4 + j], 1, r[17 + j])
            return BV(5, 32)
        def other(x):
            en.store(x, a[2], 8, fresh("variant", 64)); en.store(x, a[3], 4, fresh("generation", 32))
            for j in range(3): en.store(x, a[4 + j], 1, fresh("c", 8))
            return fresh("fields", 32)
        return Fork([(wf, ok), (z3.Not(wf), other)])
    add(r"^(__isoc99_|__isoc23_)?sscanf$", scan); e.intercepts.insert(0, (nrx(r"^(__isoc99_|__isoc23_)?sscanf$"), scan))
    pos = lambda s: s.ghost[("inpos", dev.rid)]
    rec = lambda S: [z3.Select(arr, S + 20 * wi + j) for j in range(REC)]
    def final(s, S):
        r = rec(S); off = DEC10(*r[:10]); inuse = r[17] == ord('n'); T = s.fld(we, EN, "Type")
        return [("a known entry stays as it is", z3.Implies(par0, z3.And(tobool(s.fld(we, EN, "Parsed")), U1(s, we) == v0[0], U2(s, we) == v0[1], T == v0[2]))),
                ("the entry is read", tobool(s.fld(we, EN, "Parsed"))),
                ("type as recorded", z3.Implies(z3.And(z3.Not(par0), wellformed(r)), z3.And(z3.Or(inuse, r[17] == ord('f')), eolok(r[18], r[19]), T == z3.If(inuse, ty(u, "InUse"), ty(u, "Free"))))),
                ("offset or next free number, and generation, as recorded", z3.Implies(z3.And(z3.Not(par0), wellformed(r)), z3.And(U1(s, we) == z3.If(inuse, off + magic, off), U2(s, we) == DEC5(*r[11:16]), z3.Implies(inuse, z3.Not(U1(s, we) < 0)))))]
    x = z3.BitVec("any position", 64)
    def winv(h): p = pos(h.st); return [("only white space", z3.And(z3.UGE(p, P), z3.ULE(p, n))), ("white space", z3.Implies(z3.And(z3.UGE(x, P), z3.ULT(x, p)), is_white(z3.Select(arr, x))))]
    starts = {}
    def rinv(h):
        S = pos(h.st0); s = h.st; starts[S.get_id()] = S; same = z3.And(tobool(s.fld(we, EN, "Parsed")) == par0, U1(s, we) == v0[0], U2(s, we) == v0[1], s.fld(we, EN, "Type") == v0[2])
        return [("records", z3.ULE(h.k, C)), ("position of the record", z3.And(pos(s) == S + 20 * h.k, z3.ULE(pos(s), n))), ("not read before its record", z3.Implies(z3.ULE(h.k, wi), same))] + [("read: " + nm, z3.Implies(z3.UGT(h.k, wi), t)) for nm, t in final(s, S)]
    def same_record(h):     # follows from "position of the record"
        S, p = pos(h.st0), pos(h.st); return [z3.Implies(z3.And(p == S + 20 * h.k, h.k == wi), z3.And(*[z3.Select(arr, p + j) == z3.Select(arr, S + 20 * wi + j) for j in range(REC)]))]
    loops = [LoopSpec(inv=winv, name="white space", match=lambda fn, L: not uses(u, fn, L, "CheckEOL|sscanf|XRefEntries")), LoopSpec(inv=rinv, facts=same_record, name="records", match=lambda fn, L: uses(u, fn, L, "XRefEntries"))]
    ps = e.run(u.m.find(PA + "::ReadXRefSubsection"), [this, dev, fo, co], st, loops); finals(e, ps, "ReadXRefSubsection")
    for q in ps:
        if q.kind == "throw": e.prove("ReadXRefSubsection/post/raises an error of the library", q, raised(q)); continue
        S = next((S for S in starts.values() if e.must(q, pos(q) == S + 20 * C)), simp(pos(q) - 20 * C))
        e.prove("ReadXRefSubsection/post/numbers and count in range", q, z3.And(F >= 0, C >= 0, F + C >= F, z3.ULE(F + C, q.ghost[("size",)])))
        e.prove("ReadXRefSubsection/post/the records start after white space", q, z3.And(z3.UGE(S, P), z3.Implies(z3.And(z3.UGE(x, P), z3.ULT(x, S)), is_white(z3.Select(arr, x))), z3.Not(is_white(z3.Select(arr, S)))))
        e.prove("ReadXRefSubsection/post/20 bytes for every number", q, z3.And(z3.ULE(pos(q), n), pos(q) == S + 20 * C))
        for nm, t in final(q, S): e.prove("ReadXRefSubsection/post/" + nm, q, t)
def uses(u, fn, L, pat):
    import re
    for b in L["b"]:
        for i in fn["blocks"][b]:
            if i["op"] in ("call", "invoke") and i["f"][0] == "fn" and re.search(pat, u.m.fns[i["f"][1]]["dem"] if i["f"][1] in u.m.fns else i["f"][1]): return True
    return False
# ---- order of the sections: newest first ---------------------------------------------------------------
VS = z3.ArraySort(z3.BitVecSort(64), z3.BoolSort())
def parser(u):
    e = u.engine(""); st = State(e); this = st.new_obj("parser", PA); dev = st.new_region("device", 64); use_guard(e); st.wr(st.fptr(this, PA, "m_Objects"), 8, st.new_region("objects", 8)); st.wr(st.fptr(this, PA, "m_Trailer"), 8, st.new_region("trailer", 256))
    add = lambda r, h: e.intercepts.insert(0, (rx(r), h)); st.ghost[("log",)] = (); st.ghost[("visited",)] = z3.Const("visited", VS)
    def log(s, *x): s.ghost[("log",)] = s.ghost[("log",)] + (x,)
    def may(s, do=None, codes=None):
        """returns normally or raises any error"""
        b = fresh("succeeds", z3.BoolSort()); c = fresh("error", 32)
        return Fork([(b, do or (lambda x: None)), (z3.Not(b), lambda x: Throw("_ZTIN2mm8PdfErrorE", c))])
    nop = lambda en, s, a, i: None; base = BV(8, 64)   # the device is a virtual base; its position is any
    vt, vb = st.new_region("vtable", 256), st.new_region("vtable of the base", 256); st.wr(dev, 8, padd(vt, 128)); st.wr(padd(dev, 8), 8, padd(vb, 128))
    for j in range(0, 128, 8): st.wr(padd(vt, j), 8, base)
    for j in range(0, 64, 8): st.wr(padd(vb, 128 + j), 8, FnPtr("ghost:position"))
    e.ghost_calls = {"ghost:position": lambda en, s, a, i: fresh("position", 64)}
    add(r"^mm::StreamDeviceBase::Seek\(", nop); add(r"^mm::PdfIndirectObjectList::GetDocument\(", lambda en, s, a, i: st.new_region("document", 8)); add(r"^mm::PdfParser::MergeTrailer\(", nop); add(r"^mm::Pdf(XRefStreamParser|Parser)?Object::~", nop)
    add(r"^std::unique_ptr<mm::Pdf(XRefStream)?ParserObject, .*>::(~?unique_ptr|reset)", nop)
    none = z3.Bool("first trailer"); add(r"^bool std::operator==<mm::PdfParserObject", lambda en, s, a, i: none)
    def cmp(neg):
        def h(en, s, a, i):
            c = s.ghost[("caught",)]["code"]; r = c == a[1]; return z3.Not(r) if neg else r
        return h
    add(r"^mm::PdfError::operator==\(mm::PdfErrorCode\)", cmp(False)); add(r"^mm::PdfError::operator!=\(mm::PdfErrorCode\)", cmp(True))
    it = r"std::set<unsigned long, std::less<unsigned long>, std::allocator<unsigned long>>"
    def find(en, s, a, i):   # an iterator is the value it names, or the end
        v = en.load(s, a[1], 8); p = s.new_region("element", 8); s.ghost[("in", p.rid)] = z3.Select(s.ghost[("visited",)], v); return p
    def end(en, s, a, i): p = s.new_region("end", 8); s.ghost[("in", p.rid)] = z3.BoolVal(False); return p
    def same(neg):
        def h(en, s, a, i):
            x, y = (en.load(s, p, 8, "ptr") for p in a[:2]); r = s.ghost[("in", x.rid)] == s.ghost[("in", y.rid)]; return z3.Not(r) if neg else r
        return h
    add("^" + it + r"::find\(", find); add("^" + it + r"::end\(", end); add(r"^std::operator!=\(std::_Rb_tree_const_iterator<unsigned long>", same(True)); add(r"^std::operator==\(std::_Rb_tree_const_iterator<unsigned long>", same(False))
    def insert(en, s, a, i): s.ghost[("visited",)] = simp(z3.Store(s.ghost[("visited",)], en.load(s, a[1], 8), True));
    add("^" + it + r"::insert\(", insert)
    return e, st, this, dev, add, log, may
@proof("section of a stream, then older ones")
def stream_order(u):
    """ReadXRefStreamContents: entries of the stream are read before those of the previous section it names"""
    e, st, this, dev, add, log, may = parser(u); nop = lambda en, s, a, i: None
    add(r"^mm::PdfXRefStreamParserObject::PdfXRefStreamParserObject\(", nop); add(r"^mm::PdfParserObject::ParseStream\(", lambda en, s, a, i: may(s, lambda x: log(x, "parse", a[0].rid)))
    add(r"^mm::PdfXRefStreamParserObject::ReadXRefTable\(", lambda en, s, a, i: may(s, lambda x: log(x, "entries", a[0].rid)))
    has, prev, off, only = z3.Bool("has previous"), z3.BitVec("previous", 64), z3.BitVec("offset", 64), z3.Bool("readOnlyTrailer")
    def getprev(en, s, a, i): en.store(s, a[1], 8, prev); return has
    add(r"^mm::PdfXRefStreamParserObject::TryGetPreviousOffset\(", getprev)
    def contents(en, s, a, i):
        if not s.dry: e.prove("ReadXRefContents/pre/the previous section of this one", s, a[2] == prev)
        def do(x): log(x, "older")
        def fail(x): log(x, "older"); return Throw("_ZTIN2mm8PdfErrorE", fresh("error", 32))
        b = fresh("succeeds", z3.BoolSort()); return Fork([(b, do), (z3.Not(b), fail)])
    add(r"^mm::PdfParser::ReadXRefContents\(", contents)
    ps = e.run(u.m.find(PA + "::ReadXRefStreamContents"), [this, dev, off, only], st); finals(e, ps, "ReadXRefStreamContents")
    for q in ps:
        l = q.ghost[("log",)]; k = [x[0] for x in l]
        e.prove("ReadXRefStreamContents/post/its own entries before older ones", q, z3.BoolVal(k in (["parse", "entries", "older"][:len(k)],) and len({x[1] for x in l if len(x) > 1}) <= 1))
        if q.kind == "ret": e.prove("ReadXRefStreamContents/post/its entries, and the previous section if it names another", q, z3.And(z3.BoolVal("entries" in k) == z3.Not(only), z3.BoolVal("older" in k) == z3.And(z3.Not(only), has, prev != off)))
@proof("trailer, then older sections")
def trailer_order(u):
    """ReadNextTrailer: the stream a trailer names is read before the previous section"""
    e, st, this, dev, add, log, may = parser(u); nop = lambda en, s, a, i: None
    is_, hs, hp = z3.Bool("is a trailer"), z3.Bool("XRefStm"), z3.Bool("Prev"); so, po, isnum = z3.BitVec("XRefStm.value", 64), z3.BitVec("Prev.value", 64), z3.Bool("Prev.number"); dic, prv = st.new_region("dictionary", 64), st.new_region("Prev", 64)
    nm = lambda en, s, p: const_text(en, s, en.load(s, padd(p, 8), 8, "ptr"), en.load(s, p, 8)).decode()
    add(r"^mm::PdfTokenizer::IsNextToken\(", lambda en, s, a, i: may(s, lambda x: is_)); add(r"^mm::PdfParserObject::PdfParserObject\(", nop); add(r"^mm::PdfParserObject::SetIsTrailer\(", nop); add(r"^mm::PdfObject::GetDictionary\(", lambda en, s, a, i: dic)
    add(r"^mm::PdfDictionary::HasKey\(", lambda en, s, a, i: {"XRefStm": hs, "Prev": hp}[nm(en, s, a[1])])
    def as_(en, s, a, i):
        if nm(en, s, a[1]) != "XRefStm": raise Unsupported("key")
        return so
    add(r"^long mm::PdfDictionary::FindKeyAs<long>\(", as_)
    def key(en, s, a, i):
        if nm(en, s, a[1]) != "Prev": raise Unsupported("key")
        return Fork([(hp, lambda x: prv), (z3.Not(hp), lambda x: Ptr(0, 0))])
    add(r"^mm::PdfDictionary::FindKey\(", key)
    def tryn(en, s, a, i):
        def yes(x): en.store(x, a[1], 8, po); return z3.BoolVal(True)
        return Fork([(isnum, yes), (z3.Not(isnum), lambda x: z3.BoolVal(False))])
    add(r"^mm::PdfObject::TryGetNumber\(", tryn)
    add(r"^mm::PdfParser::ReadXRefStreamContents\(", lambda en, s, a, i: may(s, lambda x: log(x, "stream", a[2], tobool(a[3])))); add(r"^mm::PdfParser::ReadXRefContents\(", lambda en, s, a, i: may(s, lambda x: log(x, "older", a[2], tobool(a[3]))))
    V = st.ghost[("visited",)]; ps = e.run(u.m.find(PA + "::ReadNextTrailer"), [this, dev], st); finals(e, ps, "ReadNextTrailer")
    for q in ps:
        l = q.ghost[("log",)]; k = [x[0] for x in l]
        e.prove("ReadNextTrailer/post/the stream before older sections", q, z3.BoolVal(k in ([], ["stream"], ["older"], ["stream", "older"])))
        for x in l: e.prove("ReadNextTrailer/post/%s: at the recorded offset, with its entries" % x[0], q, z3.And(x[1] == (so if x[0] == "stream" else po), z3.Not(x[2])))
        if q.kind == "ret": e.prove("ReadNextTrailer/post/every section named is read, none twice", q, z3.And(is_, z3.BoolVal("stream" in k) == hs, z3.BoolVal("older" in k) == z3.And(hp, isnum, po > 0, z3.Not(z3.Select(V, po)))))
@proof("sections of a table, then the trailer")
def table_order(u):
    """ReadXRefContents: no section is read twice; the subsections of a table are read, with the numbers written, before its trailer leads to older ones"""
    e, st, this, dev, add, log, may = parser(u); off, end = z3.BitVec("offset", 64), z3.Bool("positionAtEnd"); buf = st.new_region("buffer", 32); str_init(st, buf, z3.BitVec("M", 64)); st.wr(st.fptr(this, PA, "m_buffer"), 8, buf)
    G = st.ghost; G[("stage",)] = BV(0, 8); G[("n1",)] = z3.BitVec("n1", 64); G[("n2",)] = z3.BitVec("n2", 64)   # stage: 0 nothing, 1 subsections, 2 trailer or stream read
    add(r"^mm::StreamDeviceBase::GetPosition\(", lambda en, s, a, i: fresh("position", 64)); add(r"^mm::PdfParser::FindToken2\(", lambda en, s, a, i: may(s))
    def fx(en, s, a, i):
        def do(x): en.store(x, a[2], 8, fresh("found", 64))
        return may(s, do)
    add(r"^mm::PdfParser::FindXRef\(", fx); add(r"::resize\(unsigned long\)", lambda en, s, a, i: None)
    add(r"^mm::PdfTokenizer::TryReadNextToken\(", lambda en, s, a, i: may(s, lambda x: fresh("token", z3.BoolSort()))); add(r"^mm::PdfTokenizer::EnqueueToken\(", lambda en, s, a, i: None)
    add(r"^bool std::operator[!=]=<char", lambda en, s, a, i: fresh("same", z3.BoolSort()))
    def num(en, s, a, i):
        def do(x): v = fresh("number", 64); x.ghost[("n1",)] = x.ghost[("n2",)]; x.ghost[("n2",)] = v; return v
        return may(s, do)
    add(r"^mm::PdfTokenizer::ReadNextNumber\(", num)
    def sub(en, s, a, i):
        if not s.dry:
            e.prove("ReadXRefSubsection/pre/before the trailer", s, z3.ULE(s.ghost[("stage",)], 1))
            e.prove("ReadXRefSubsection/pre/with the numbers written", s, z3.And(en.load(s, a[2], 8) == s.ghost[("n1",)], en.load(s, a[3], 8) == s.ghost[("n2",)]))
        s.ghost[("stage",)] = BV(1, 8); return may(s)
    add(r"^mm::PdfParser::ReadXRefSubsection\(", sub)
    def nxt(nm):
        def h(en, s, a, i):
            if not s.dry: e.prove(nm + "/pre/once, and the section is marked as read", s, z3.And(z3.ULE(s.ghost[("stage",)], 1 if nm == "ReadNextTrailer" else 0), z3.Select(s.ghost[("visited",)], off)))
            s.ghost[("stage",)] = BV(2, 8); return may(s)
        return h
    add(r"^mm::PdfParser::ReadNextTrailer\(", nxt("ReadNextTrailer")); add(r"^mm::PdfParser::ReadXRefStreamContents\(", nxt("ReadXRefStreamContents"))
    V = G[("visited",)]; loop = LoopSpec(inv=lambda h: [("the trailer comes last", z3.ULE(h.st.ghost[("stage",)], 1)), ("marked as read", z3.Select(h.st.ghost[("visited",)], off))], name="subsections")
    ps = e.run(u.m.find(PA + "::ReadXRefContents"), [this, dev, off, end], st, [loop]); finals(e, ps, "ReadXRefContents")
    for q in ps:
        e.prove("ReadXRefContents/post/a section read before is not read again", q, z3.Implies(z3.Select(V, off), z3.And(z3.BoolVal(q.kind == "throw"), q.ghost[("stage",)] == 0)))
        if q.kind == "ret": e.prove("ReadXRefContents/post/ends with the trailer or the stream", q, q.ghost[("stage",)] == 2)

@proof("widths and numbers of a stream")
def recorded(u):
    """ReadXRefTable: exactly three widths, as recorded; the sections of the index, or all numbers below the size"""
    e = u.engine(""); st = State(e); this = st.new_obj("parser", SP); add = lambda r, h: e.intercepts.insert(0, (rx(r), h))
    nm = lambda en, s, p: const_text(en, s, en.load(s, padd(p, 8), 8, "ptr"), en.load(s, p, 8)).decode()
    dic, W, arr = st.new_region("dictionary", 64), st.new_region("W", 64), st.new_region("array", 64); isarr = z3.Bool("W is an array"); n = z3.BitVec("length of W", 64); size = z3.BitVec("Size", 64); num = [z3.BitVec("W%d" % i, 64) for i in range(3)]; isnum = [z3.Bool("W%d is a number" % i) for i in range(3)]
    el = [st.new_region("element", 64) for i in range(3)]; st.ghost[("done",)] = z3.BoolVal(False)
    add(r"^mm::PdfObject::GetDictionary\(", lambda en, s, a, i: dic); add(r"^mm::PdfName::operator std::basic_string_view", lambda en, s, a, i: Agg([BV(4, 64), s.new_region("name", 8)]))
    def asn(en, s, a, i): return size
    add(r"^long mm::PdfDictionary::FindKeyAs<long>\(", asn)
    def must(en, s, a, i):
        if nm(en, s, a[1]) != "W": raise Unsupported("key")
        return W
    add(r"^mm::PdfDictionary::MustFindKey\(", must)
    def tryarr(en, s, a, i):
        if a[0].rid != W.rid: raise Unsupported("array")
        def yes(x): en.store(x, a[1], 8, arr); return z3.BoolVal(True)
        return Fork([(isarr, yes), (z3.Not(isarr), lambda x: z3.BoolVal(False))])
    add(r"^mm::PdfObject::TryGetArray\(", tryarr); add(r"^mm::PdfArray::size\(", lambda en, s, a, i: n)
    def elem(en, s, a, i):
        k = simp(a[1])
        if not isc(k) or cval(k) > 2: raise Unsupported("element")
        return el[cval(k)]
    add(r"^mm::PdfArray::operator\[\]\(", elem)
    def tryn(en, s, a, i):
        k = [x.rid for x in el].index(a[0].rid)
        def yes(x): en.store(x, a[1], 8, num[k]); return z3.BoolVal(True)
        return Fork([(isnum[k], yes), (z3.Not(isnum[k]), lambda x: z3.BoolVal(False))])
    add(r"^mm::PdfObject::TryGetNumber\(", tryn); add(r"^std::vector<long, .*>::~?vector\(", lambda en, s, a, i: None)
    def idx(en, s, a, i):
        if not s.dry: e.prove("getIndices/pre/the size recorded", s, a[2] == size)
        s.ghost[("indices",)] = a[1]; b = fresh("succeeds", z3.BoolSort()); return Fork([(b, lambda x: None), (z3.Not(b), lambda x: err(u, "NoXRef"))])
    add(r"^mm::PdfXRefStreamParserObject::getIndices\(", idx)
    def parse(en, s, a, i):
        if not s.dry:
            e.prove("parseStream/pre/the widths recorded", s, z3.And(*[en.load(s, padd(a[1], 8 * k), 8) == num[k] for k in range(3)]))
            e.prove("parseStream/pre/the sections of the index", s, z3.BoolVal(("indices",) in s.ghost and a[2].rid == s.ghost[("indices",)].rid))
        s.ghost[("done",)] = z3.BoolVal(True); b = fresh("succeeds", z3.BoolSort()); return Fork([(b, lambda x: None), (z3.Not(b), lambda x: err(u, "NoXRef"))])
    add(r"^mm::PdfXRefStreamParserObject::parseStream\(", parse)
    ps = e.run(u.m.find(SP + "::ReadXRefTable"), [this], st); finals(e, ps, "ReadXRefTable")
    for q in ps:
        e.prove("ReadXRefTable/post/three numbers are needed", q, z3.Implies(q.ghost[("done",)], z3.And(isarr, n == 3, *isnum)))
        if q.kind == "ret": e.prove("ReadXRefTable/post/the entries are read", q, q.ghost[("done",)])
@proof("numbers of the sections")
def indices(u):
    """getIndices: the numbers of the index in their order, or 0 and the size; an odd number of them raises"""
    e = u.engine(""); st = State(e); this = st.new_obj("parser", SP); add = lambda r, h: e.intercepts.insert(0, (rx(r), h)); size = z3.BitVec("Size", 64); vec = st.new_region("vector", 24)
    dic, ix, arr = st.new_region("dictionary", 64), st.new_region("Index", 64), st.new_region("array", 64); has, isarr = z3.Bool("has Index"), z3.Bool("Index is an array"); n = z3.BitVec("n", 64); st.assume(z3.ULT(n, BV(1 << 40, 64)))
    OBJ = u.m.sizeof("mm::PdfObject"); el = st.new_region("elements", n * OBJ); NUM = z3.Function("number", z3.BitVecSort(64), z3.BitVecSort(64)); A = z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(64))
    st.ghost[("out",)] = z3.Const("out", A); st.ghost[("len",)] = BV(0, 64)
    add(r"^mm::PdfObject::GetDictionary\(", lambda en, s, a, i: dic)
    def key(en, s, a, i):
        if const_text(en, s, en.load(s, padd(a[1], 8), 8, "ptr"), en.load(s, a[1], 8)) != b"Index": raise Unsupported("key")
        return Fork([(has, lambda x: ix), (z3.Not(has), lambda x: Ptr(0, 0))])
    add(r"^mm::PdfDictionary::GetKey\(", key)
    def tryarr(en, s, a, i):
        def yes(x): en.store(x, a[1], 8, arr); return z3.BoolVal(True)
        return Fork([(isarr, yes), (z3.Not(isarr), lambda x: z3.BoolVal(False))])
    add(r"^mm::PdfObject::TryGetArray\(", tryarr); add(r"^mm::PdfArray::begin\(", lambda en, s, a, i: el); add(r"^mm::PdfArray::end\(", lambda en, s, a, i: Ptr(el.rid, simp(n * OBJ)))
    def copyo(en, s, a, i): s.ghost[("copy", a[0].rid)] = a[1]
    add(r"^mm::PdfObject::PdfObject\(mm::PdfObject const&\)", copyo); add(r"^mm::PdfObject::~", lambda en, s, a, i: None)
    def getn(en, s, a, i):
        p = s.ghost.get(("copy", a[0].rid), a[0])
        if p.rid != el.rid: raise Unsupported("number of an unknown object")
        b = fresh("is a number", z3.BoolSort()); return Fork([(b, lambda x: NUM(p.off)), (z3.Not(b), lambda x: err(u, "InvalidDataType"))])
    add(r"^mm::PdfObject::GetNumber\(", getn)
    def push(en, s, a, i):
        o = s.ghost[("out",)]; l = s.ghost[("len",)]; s.ghost[("out",)] = z3.Store(o, l, en.load(s, a[1], 8)); s.ghost[("len",)] = simp(l + 1)
    add(r"^std::vector<long, .*>::push_back\(", push); add(r"^std::vector<long, .*>::size\(", lambda en, s, a, i: s.ghost[("len",)])
    w = z3.BitVec("watched", 64); st.assume(z3.ULT(w, n))
    inv = lambda h: [("as many as read", h.st.ghost[("len",)] == h.k), ("numbers so far", z3.Implies(z3.ULT(w, h.k), z3.Select(h.st.ghost[("out",)], w) == NUM(w * OBJ))), ("elements", z3.ULE(h.k, n))]
    ps = e.run(u.m.find(SP + "::getIndices"), [this, vec, size], st, [LoopSpec(inv=inv, name="numbers")]); finals(e, ps, "getIndices")
    for q in ps:
        o, l = q.ghost[("out",)], q.ghost[("len",)]
        if q.kind == "throw": e.prove("getIndices/post/raises an error of the library", q, raised(q)); continue
        e.prove("getIndices/post/the default is all numbers below the size", q, z3.Implies(z3.Not(has), z3.And(l == 2, z3.Select(o, BV(0, 64)) == 0, z3.Select(o, BV(1, 64)) == size)))
        e.prove("getIndices/post/an array of pairs", q, z3.Implies(has, z3.And(isarr, l == n, n & 1 == 0, z3.Select(o, w) == NUM(w * OBJ))))
