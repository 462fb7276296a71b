"""T03 character codes: their width, writing them as bytes and as hexadecimal digits, cutting text into codes, codes of CMaps."""
from engine.api import *
import re
TUS = ["base/PdfEncodingCommon.cpp", "base/PdfEncodingMap.cpp", "base/PdfIdentityEncoding.cpp", "base/PdfCMapEncoding.cpp", "private/PdfDeclarationsPrivate.cpp"]
LEVEL = "proof"
BOUNDED_NOTE = "native: every code of one and two bytes and seeded codes of three and four in every width, texts of mixed codes, CMaps with every way to write a mapping against a reference, exported CMaps read back"
TRUSTED = ["fmt writes an unsigned integer with {:0wX} as its hexadecimal digits, at least w of them", "std::string appends as in the C++ standard", "std::pow(2, n) is 2 to the n",
           "the map itself (which codes are defined) is an arbitrary predicate of code and width in the cutting contracts"]
UNITS, BOUNDED, proof, bounded = registry()
CC, EM, ID, LI, CID = "mm::PdfCharCode", "mm::PdfEncodingMap", "mm::PdfIdentityEncoding", "mm::PdfEncodingLimits", "mm::PdfCID"
c32 = lambda n: BV(n, 32)
SHL = lambda n: BV((1 << (8 * n)) - 1, 32)
def fits(c, w): return z3.ULE(c, SHL(w))
def width(c):
    """the least number of bytes"""
    return z3.If(z3.ULE(c, c32(0xFF)), u8(1), z3.If(z3.ULE(c, c32(0xFFFF)), u8(2), z3.If(z3.ULE(c, c32(0xFFFFFF)), u8(3), u8(4))))
def byte(c, w, j): return z3.Extract(8 * (w - 1 - j) + 7, 8 * (w - 1 - j), c)        # j-th byte of a code of w bytes, most significant first
def newcode(st, w=None, name="code"):
    p = st.new_obj(name, CC); c = st.fld(p, CC, "Code")
    if w is not None: st.setfld(p, CC, "CodeSpaceSize", u8(w)); st.assume(fits(c, w))
    return p, c
@proof("width of a code")
def widths(u):
    """a code made from a number has the least width; the largest code of a width"""
    e = u.engine(""); st = State(e); c = z3.BitVec("code", 32); p = st.new_obj("made", CC)
    ps = e.run([k for k, f in u.m.fns.items() if not f["decl"] and f["dem"] == CC + "::PdfCharCode(unsigned int)"][0], [p, c], st); finals(e, ps, "PdfCharCode"); nothrow(e, ps, "PdfCharCode")
    for q in ps:
        e.prove("PdfCharCode/post/least number of bytes for the code", q, q.fld(p, CC, "CodeSpaceSize") == width(c)); e.prove("PdfCharCode/post/the code", q, q.fld(p, CC, "Code") == c)
    for w in (1, 2, 3, 4):
        e = u.engine("%d bytes: " % w); ps = e.run(u.m.find("utls::GetCharCodeMaxValue"), [u8(w)], State(e)); finals(e, ps, "GetCharCodeMaxValue"); nothrow(e, ps, "GetCharCodeMaxValue")
        for q in ps: e.prove("GetCharCodeMaxValue/post/all bits of the bytes", q, q.ret == SHL(w))
@proof("comparison")
def comparison(u):
    """codes are ordered by code and width, equal exactly when both are"""
    for op in ("operator<", "operator=="):
        e = u.engine(op + ": "); st = State(e); a, x = newcode(st, name="a"); b, y = newcode(st, name="b"); v, w = st.fld(a, CC, "CodeSpaceSize"), st.fld(b, CC, "CodeSpaceSize")
        ps = e.run(u.m.find(CC + "::" + op), [a, b], st); finals(e, ps, op); nothrow(e, ps, op)
        for q in ps: e.prove("PdfCharCode::%s/post/by code and width" % op, q, tobool(q.ret) == (z3.And(x == y, v == w) if op == "operator==" else z3.Or(z3.ULT(x, y), z3.And(x == y, z3.ULT(v, w)))))
@proof("raw bytes")
def raw(u):
    """AppendTo appends exactly the bytes of the code"""
    for w in (1, 2, 3, 4):
        e = u.engine("%d bytes: " % w); st = State(e); p, c = newcode(st, w); n = z3.BitVec("n", 64); st.assume(z3.ULE(n, BV(1 << 40, 64)))
        t = st.new_region("text", 32); str_init(st, t, n); old = e.flatten(st, str_buf(st, t)).arr
        ps = e.run(u.m.find(CC + "::AppendTo"), [p, t], st); finals(e, ps, "AppendTo"); nothrow(e, ps, "AppendTo")
        for q in ps:
            i = fresh("i", 64); new = e.flatten(q, str_buf(q, t)).arr
            e.prove("AppendTo/post/as many bytes as the width", q, str_len(q, t) == n + w)
            e.prove("AppendTo/post/what was there before stays", q, z3.Implies(z3.ULT(i, n), z3.Select(new, i) == z3.Select(old, i)))
            for j in range(w): e.prove("AppendTo/post/most significant byte first", q, z3.Select(new, n + j) == byte(c, w, j))
def hexfmt(e, what):
    """fmt with a pattern of plain text and one {:0wX}"""
    def h(en, s, a, i):
        P = a[1]; dem = en.m.fns[i["f"][1]]["dem"]
        if "basic_string_view" in dem[dem.index(">("):]: F = const_text(en, s, en.load(s, padd(P, 8), 8, "ptr"), en.load(s, P, 8)).decode()
        else:
            bs = []
            while True:
                b = simp(en.load(s, padd(P, len(bs)), 1))
                if not isc(b): raise Unsupported("symbolic pattern")
                if cval(b) == 0: break
                bs.append(cval(b))
            F = bytes(bs).decode()
        m = re.fullmatch(r"([^{}]*)\{:0(\d)X\}([^{}]*)", F)
        if not m: raise Unsupported("pattern " + F)
        w = int(m.group(2)); v = en.load(s, a[2], 4)
        lim = z3.BoolVal(True) if w >= 8 else z3.ULT(v, BV(1 << (4 * w), 32))
        if not s.dry: en.prove(what + "/pre/the number has at most %d digits" % w, s, lim)
        s.assume(lim); ds = [z3.Extract(4 * k + 3, 4 * k, v) if k < 8 else z3.BitVecVal(0, 4) for k in reversed(range(w))]
        out = [u8(ord(x)) for x in m.group(1)] + [(lambda x: simp(z3.If(z3.ULT(x, u8(10)), x + 48, x + 55)))(z3.ZeroExt(4, d)) for d in ds] + [u8(ord(x)) for x in m.group(3)]
        str_init(s, a[0])
        for b in out: str_push(en, s, a[0], b)
    e.intercepts.insert(0, (rx(r"^void utls::FormatTo<"), h))
@proof("hexadecimal digits")
def hexd(u):
    """WriteHexTo writes two hexadecimal digits for every byte of the code"""
    for w in (1, 2, 3, 4):
        for wrap in (True, False):
            e = u.engine("%d bytes, %s brackets: " % (w, "with" if wrap else "without")); st = State(e); hexfmt(e, "WriteHexTo"); p, c = newcode(st, w); t = st.new_region("text", 32); str_init(st, t, z3.BitVec("n", 64))
            ps = e.run(u.m.find(CC + "::WriteHexTo"), [p, t, z3.BoolVal(wrap)], st); finals(e, ps, "WriteHexTo"); nothrow(e, ps, "WriteHexTo")
            for q in ps:
                k = 1 if wrap else 0; b = str_buf(q, t); at = lambda j: e.load(q, padd(b, j), 1, check=False)
                e.prove("WriteHexTo/post/two digits for every byte of the width", q, str_len(q, t) == 2 * w + 2 * k)
                if wrap: e.prove("WriteHexTo/post/angle brackets", q, z3.And(at(0) == ord('<'), at(2 * w + 1) == ord('>')))
                for j in range(w): e.prove("WriteHexTo/post/digits of the bytes, most significant first", q, z3.And(is_hex(at(k + 2 * j)), is_hex(at(k + 2 * j + 1)), hexval(at(k + 2 * j)) * 16 + hexval(at(k + 2 * j + 1)) == byte(c, w, j)))
    e = u.engine("other widths: "); st = State(e); hexfmt(e, "WriteHexTo"); p, c = newcode(st); t = st.new_region("text", 32); str_init(st, t, z3.BitVec("n", 64)); s = st.fld(p, CC, "CodeSpaceSize"); st.assume(z3.Or(s == 0, z3.UGT(s, 4)))
    ps = e.run(u.m.find(CC + "::WriteHexTo"), [p, t, z3.BoolVal(True)], st); finals(e, ps, "WriteHexTo", reach=False)
    for q in ps: e.prove("WriteHexTo/post/no code has another width", q, z3.BoolVal(q.kind == "throw"))
# ---- cutting text into codes -------------------------------------------------------------------------
def amap(u, typ, lo, hi):
    """an encoding map with arbitrary defined codes, widths from lo to hi, and a position in a text"""
    e = u.engine(""); st = State(e); m = st.new_obj("map", ID); lim = st.new_obj("limits", LI)
    ps = e.run([k for k, f in u.m.fns.items() if not f["decl"] and f["dem"].startswith(ID + "::PdfIdentityEncoding(mm::PdfEncodingMapType, mm::PdfEncodingLimits")][0], [m, typ, lim, z3.BitVec("orientation", 32)], st)
    if len(ps) != 1: raise Unsupported("constructor")
    st = ps[0]; st.kind = None; f = st.fptr(m, ID, "m_Limits"); st.wr(padd(f, u.m.field(LI, "MinCodeSize")[0]), 1, lo); st.wr(padd(f, u.m.field(LI, "MaxCodeSize")[0]), 1, hi)
    st.assume(z3.And(z3.UGE(lo, 1), z3.ULE(lo, hi), z3.ULE(hi, 4)))
    n, p = z3.BitVec("n", 64), z3.BitVec("p", 64); st.assume(z3.And(z3.ULE(p, n), z3.ULT(n, BV(1 << 40, 64)))); b = st.new_region("text", n); arr = e.flatten(st, b).arr
    it = st.new_region("it", 8); st.wr(it, 8, Ptr(b.rid, p)); end = st.new_region("end", 8); st.wr(end, 8, Ptr(b.rid, n))
    return e, st, m, n, p, arr, it, end
def codeat(arr, p, w): return simp(z3.Concat(*([BV(0, 32 - 8 * w)] if w < 4 else []) + [z3.Select(arr, p + j) for j in range(w)]))
DEFINED = z3.Function("code_is_defined", z3.BitVecSort(32), z3.BitVecSort(8), z3.BoolSort())
@proof("cutting into codes of one width")
def fixed(u):
    """TryGetNextCID without a CMap: the next code of the width, or nothing if the text ends before"""
    for w in (1, 2, 3, 4):
        typ = z3.BitVec("type", 8); e, st, m, n, p, arr, it, end = amap(u, typ, z3.BitVec("lo", 8), u8(w)); e.prefix = "%d bytes: " % w
        from contracts.tokcommon import enum_val
        st.assume(typ != enum_val(u, "mm::PdfEncodingMapType", "CMap")); cid = st.new_obj("cid", CID)
        ps = e.run(u.m.find(EM + "::TryGetNextCID"), [m, it, end, cid], st); finals(e, ps, "TryGetNextCID"); nothrow(e, ps, "TryGetNextCID")
        for q in ps:
            r = tobool(q.ret); un = q.fptr(cid, CID, "Unit")
            e.prove("TryGetNextCID/post/a code exactly when the text has enough bytes", q, r == z3.UGE(n - p, w))
            e.prove("TryGetNextCID/post/the position moves by the width of the code, or not at all", q, q.rd(it, 8, "ptr").off == z3.If(r, p + w, p))
            e.prove("TryGetNextCID/post/the code and its width", q, z3.Implies(r, z3.And(q.fld(un, CC, "Code") == codeat(arr, p, w), q.fld(un, CC, "CodeSpaceSize") == w, q.fld(cid, CID, "Id") == codeat(arr, p, w))))
@proof("cutting into codes of several widths")
def mixed(u):
    """tryGetNextCodePoints: the shortest sequence of bytes within the widths of the map that is a defined code"""
    lo, hi = z3.BitVec("lo", 8), z3.BitVec("hi", 8); e, st, m, n, p, arr, it, end = amap(u, z3.BitVec("type", 8), lo, hi)
    unit = st.new_obj("unit", CC); cps = st.new_region("code points", 24)
    e.intercepts.insert(0, (rx(r"PdfIdentityEncoding::tryGetCodePoints\("), lambda en, s, a, i: DEFINED(s.fld(a[1], CC, "Code"), s.fld(a[1], CC, "CodeSpaceSize"))))
    ps = e.run(u.m.find(EM + "::tryGetNextCodePoints"), [m, it, end, unit, cps], st); finals(e, ps, "tryGetNextCodePoints"); nothrow(e, ps, "tryGetNextCodePoints")
    hit = lambda k: z3.And(z3.ULE(lo, k), z3.UGE(hi, k), z3.UGE(n - p, k), DEFINED(codeat(arr, p, k), u8(k)))
    first = [z3.And(hit(k), *[z3.Not(hit(j)) for j in range(1, k)]) for k in (1, 2, 3, 4)]
    for q in ps:
        r = tobool(q.ret)
        e.prove("tryGetNextCodePoints/post/a code exactly when one of the widths gives a defined one", q, r == z3.Or(*first))
        e.prove("tryGetNextCodePoints/post/the position stays when there is none", q, z3.Implies(z3.Not(r), q.rd(it, 8, "ptr").off == p))
        for k in (1, 2, 3, 4): e.prove("tryGetNextCodePoints/post/the shortest code, with its width", q, z3.Implies(first[k - 1], z3.And(q.rd(it, 8, "ptr").off == p + k, q.fld(unit, CC, "Code") == codeat(arr, p, k), q.fld(unit, CC, "CodeSpaceSize") == k)))
@proof("writing and cutting")
def lemma(u):
    """the bytes of a code, most significant first, are cut into the same code again"""
    e = u.engine(""); st = State(e); c = z3.BitVec("code", 32)
    for w in (1, 2, 3, 4): e.prove("lemma/the bytes of a code give the code", st, z3.Implies(fits(c, w), z3.Concat(*([BV(0, 32 - 8 * w)] if w < 4 else []) + [byte(c, w, j) for j in range(w)]) == c))
# ---- identity encodings ------------------------------------------------------------------------------
@proof("identity encodings")
def identity(u):
    """limits of one width; every code point that fits has a code of that width"""
    for w in (1, 2, 3, 4):
        e = u.engine("%d bytes: " % w); st = State(e); m = st.new_obj("map", ID)
        ps = e.run([k for k, f in u.m.fns.items() if not f["decl"] and f["dem"] == ID + "::PdfIdentityEncoding(unsigned char)"][0], [m, u8(w)], st); finals(e, ps, "PdfIdentityEncoding"); nothrow(e, ps, "PdfIdentityEncoding")
        for q in ps:
            f = q.fptr(m, ID, "m_Limits"); F, L = q.fptr(f, LI, "FirstChar"), q.fptr(f, LI, "LastChar")
            e.prove("PdfIdentityEncoding/post/codes of that width only", q, z3.And(q.fld(f, LI, "MinCodeSize") == w, q.fld(f, LI, "MaxCodeSize") == w, q.fld(F, CC, "CodeSpaceSize") == w, q.fld(L, CC, "CodeSpaceSize") == w))
            e.prove("PdfIdentityEncoding/post/from zero to the largest code of the width", q, z3.And(q.fld(F, CC, "Code") == 0, q.fld(L, CC, "Code") == SHL(w)))
            cp = z3.BitVec("cp", 32); out = q.new_obj("code", CC); q.kind = None
            for x in e.run(u.m.find(ID + "::tryGetCharCode"), [m, cp, out], q):
                if x.kind == "throw": e.prove("tryGetCharCode/post/does not raise", x, z3.BoolVal(False)); continue
                e.prove("tryGetCharCode/post/a code exactly when it fits the width", x, tobool(x.ret) == fits(cp, w))
                e.prove("tryGetCharCode/post/the code has the width of the encoding", x, z3.Implies(tobool(x.ret), z3.And(x.fld(out, CC, "Code") == cp, x.fld(out, CC, "CodeSpaceSize") == w)))
    e = u.engine("other widths: "); st = State(e); m = st.new_obj("map", ID); s = z3.BitVec("w", 8); st.assume(z3.Or(s == 0, z3.UGT(s, 4)))
    for q in e.run([k for k, f in u.m.fns.items() if not f["decl"] and f["dem"] == ID + "::PdfIdentityEncoding(unsigned char)"][0], [m, s], st): e.prove("PdfIdentityEncoding/post/no encoding of another width", q, z3.BoolVal(q.kind == "throw"))
# ---- codes of CMaps ----------------------------------------------------------------------------------
@proof("codes of CMaps")
def cmap(u):
    """getCodeFromVariant: a string of one to four bytes is the code of its bytes and their number, a number the code of least width; anything else raises"""
    V = "mm::PdfVariant"
    F = [k for k, f in u.m.fns.items() if not f["decl"] and f["dem"] == "getCodeFromVariant(mm::PdfVariant const&, unsigned char&)"][0]
    for isnum in (True, False):
        e = u.engine("number: " if isnum else "string: "); st = State(e); v = st.new_region("variant", 32); num = z3.BitVec("number", 64); sz = st.new_region("size", 1); n = z3.BitVec("n", 64)
        t = st.new_region("bytes", 32); str_init(st, t, n); arr = e.flatten(st, str_buf(st, t)).arr; st.assume(z3.ULT(n, BV(1 << 32, 64)))
        add = lambda p, h: e.intercepts.insert(0, (rx(p), h))
        add(r"^mm::PdfVariant::IsNumber\(\)", lambda en, s, a, i: z3.BoolVal(isnum)); add(r"^mm::PdfVariant::GetNumber\(\)", lambda en, s, a, i: num); add(r"^mm::PdfVariant::GetString\(\)", lambda en, s, a, i: v); add(r"^mm::PdfString::GetRawData\(\)", lambda en, s, a, i: t)
        ps = e.run(F, [v, sz], st); finals(e, ps, "getCodeFromVariant"); low = z3.Extract(31, 0, num)
        for q in ps:
            ok = z3.And(num >= 0, num <= BV(0xFFFFFFFF, 64)) if isnum else z3.ULE(n, 4)
            e.prove("getCodeFromVariant/post/raises exactly for what is no code of up to four bytes", q, ok == z3.BoolVal(q.kind == "ret"))
            if q.kind != "ret": continue
            if isnum: e.prove("getCodeFromVariant/post/the number with the least width", q, z3.And(q.ret == low, q.rd(sz, 1) == width(low)))
            else:
                for w in (1, 2, 3, 4): e.prove("getCodeFromVariant/post/the code of the bytes and their number", q, z3.Implies(n == w, z3.And(q.ret == codeat(arr, BV(0, 64), w), q.rd(sz, 1) == w)))
