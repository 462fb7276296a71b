"""T01 dates in PDF and W3C form. The parsers are proved equal to a reference reading of the grammar for every text; the texts the
formatter writes are read back by that reference."""
from engine.api import *
TUS = ["base/PdfDate.cpp"]
LEVEL = "proof"
BOUNDED_NOTE = "native: every day of the years 0 to 9999 (the whole domain of the calendar contract), every whole-minute offset within a day, every truncation of dates in both forms, seeded mutations of them against a reference reading, texts that are not null terminated"
TRUSTED = ["conversion between day numbers and year, month and day (date library) is a bijection on the years 0 to 9999: checked natively for every day of that range",
           "fmt writes an integer below 10^w with {:0w} as w decimal digits, characters and texts with {} as they are",
           "years 0 to 9999 and offsets of less than 24 hours: outside of them the forms have no representation"]
UNITS, BOUNDED, proof, bounded = registry()
DT = "mm::PdfDate"
B32 = z3.BitVecSort(32)
DAYS_ = z3.Function("days_from_civil", z3.BitVecSort(16), z3.BitVecSort(8), z3.BitVecSort(8), B32)      # as the library stores year, month and day
YZ, MZ, DZ = z3.Function("year_of", B32, z3.BitVecSort(16)), z3.Function("month_of", B32, z3.BitVecSort(8)), z3.Function("day_of", B32, z3.BitVecSort(8))
FIRST, LAST = -719528, 2932896      # 0000-01-01, 9999-12-31
c32 = lambda n: BV(n, 32)
zx = lambda v, w: v if v.size() == w else z3.ZeroExt(w - v.size(), v)
sxw = lambda v, w: v if v.size() == w else z3.SignExt(w - v.size(), v)
def leap(y): return z3.And(z3.URem(y, c32(4)) == 0, z3.Or(z3.URem(y, c32(100)) != 0, z3.URem(y, c32(400)) == 0))
def monthlen(y, m):
    r = c32(31)
    for k in (4, 6, 9, 11): r = z3.If(m == k, c32(30), r)
    return z3.If(m == 2, z3.If(leap(y), c32(29), c32(28)), r)
def valid(y, m, d): return z3.And(m >= 1, m <= 12, d >= 1, d <= monthlen(y, m))
def DAYS(y, m, d): return DAYS_(simp(z3.Extract(15, 0, y)), simp(z3.Extract(7, 0, m)), simp(z3.Extract(7, 0, d)))
def calendar(z):
    """what the calendar contract says about a day number"""
    y, m, d = sxw(YZ(z), 32), zx(MZ(z), 32), zx(DZ(z), 32)
    return z3.Implies(z3.And(z >= FIRST, z <= LAST), z3.And(DAYS(y, m, d) == z, y >= 0, y <= 9999, valid(y, m, d)))
def lib(e):
    """contracts of the date library and of fmt"""
    def add(p, h): e.intercepts.insert(0, (rx(p), h))
    f = lambda s, p, o, n: s.rd(padd(p, o), n)
    add(r"^date::year_month_day::operator std::chrono::time_point<", lambda en, s, a, i: DAYS(sxw(f(s, a[0], 0, 2), 32), zx(f(s, a[0], 2, 1), 32), zx(f(s, a[0], 3, 1), 32)))
    def civil(en, s, a, i):
        z = a[1]; s.facts.append(calendar(z)); s.wr(a[0], 2, YZ(z)); s.wr(padd(a[0], 2), 1, MZ(z)); s.wr(padd(a[0], 3), 1, DZ(z))
    add(r"^date::year_month_day::year_month_day\(std::chrono::time_point<", civil)
    add(r"^date::year_month_day::ok\(\)", lambda en, s, a, i: valid(sxw(f(s, a[0], 0, 2), 32), zx(f(s, a[0], 2, 1), 32), zx(f(s, a[0], 3, 1), 32)))
    def view(en, s, a, i):      # a copy of the text with a terminating zero
        n, p = en.load(s, a[1], 8), en.load(s, padd(a[1], 8), 8, "ptr")
        if not en.check_access(s, p, n, "text", i): raise PathEnd("bad")
        str_init(s, a[0], n); src = s.mem[p.rid]; B = s.wregion(str_buf(s, a[0]))
        if src.cells or src.arr is None or not (isc(p.off) and cval(p.off) == 0): raise Unsupported("copy of a part of a text")
        B.arr = src.arr; B.cells = {}; s.assume(z3.Select(src.arr, n) == 0)     # what lies behind the n bytes of the text is never read: the byte there may stand for the terminating zero of the copy
    add(SS + r"basic_string<std::basic_string_view<char, std::char_traits<char> ?>, void>\(", view)
    def assign(en, s, a, i):
        bs = []
        while True:
            b = simp(en.load(s, padd(a[1], len(bs)), 1))
            if not isc(b): raise Unsupported("text of symbolic length")
            if cval(b) == 0: break
            bs.append(b)
        str_init(s, a[0])
        for b in bs: str_push(en, s, a[0], b)
        return a[0]
    add(SS + r"operator=\(char const\*\)", assign)
    memo = {}; e.quotients = []
    def div(s, op, a, b):
        for d, c, q, r in e.quotients:      # the state was given in quotients and remainders
            if c == sval(b) and d.size() == a.size() and (a.eq(d) or e.must(s, a == d)): return q if op.endswith("div") else r
        k = (op[0], a.get_id(), cval(b)); w = a.size(); c = sval(b)
        if k not in memo:
            q, r = fresh("quotient", w), fresh("remainder", w); lim = (1 << (w - 1)) // abs(c)
            sg = [z3.And(r >= 0, r < abs(c)), z3.And(r <= 0, r > -abs(c))] if op[0] == "s" else [z3.ULT(r, BV(c, w))] * 2
            fact = z3.And(a == q * BV(c, w) + r, z3.If(a >= 0, sg[0], sg[1]) if op[0] == "s" else sg[0], z3.And(q <= lim, q >= -lim) if op[0] == "s" else z3.ULE(q, BV(((1 << w) - 1) // c, w)))
            memo[k] = (a, q, r, fact)
        _, q, r, fact = memo[k]
        if not any(x is fact for x in s.facts): s.facts.append(fact)
        return q if op.endswith("div") else r
    e.divc = div
def sval(b): v = cval(b); return v - (1 << b.size()) if v >> (b.size() - 1) else v
def digits(s, v, w):
    """the w decimal digits of v < 10^w"""
    ds = [fresh("digit", 32) for _ in range(w)]; t = c32(0)
    for d in ds: t = t * 10 + d
    s.facts.append(z3.And(v == t, *[z3.ULE(d, c32(9)) for d in ds])); return [z3.Extract(7, 0, d) + 48 for d in ds]
SZ = {"char": 1, "short": 2, "unsigned char": 1, "int": 4, "unsigned int": 4, "unsigned short": 2, "signed char": 1, "long": 8, "unsigned long": 8}
def fmt(e, what):
    def split(t):
        out, d = [""], 0
        for c in t:
            if c in "<(": d += 1
            if c in ">)": d -= 1
            if c == "," and d == 0: out.append("")
            else: out[-1] += c
        return [x.strip() for x in out]
    def h(en, s, a, i):
        p, n = en.load(s, padd(a[1], 8), 8, "ptr"), en.load(s, a[1], 8); F = const_text(en, s, p, n).decode()
        dem = en.m.fns[i["f"][1]]["dem"]; tys = split(dem[dem.index("<") + 1:dem.index(">(std::")]); args = list(zip(a[2:], tys)); out = []
        if len(tys) != len(a) - 2: raise Unsupported("arguments of " + dem[:80])
        while F:
            m = re.match(r"\{(?::0(\d))?\}", F)
            if not m: out.append(u8(ord(F[0]))); F = F[1:]; continue
            F = F[m.end():]; p, ty = args.pop(0); w = m.group(1)
            if ty.startswith("std::__cxx11::basic_string"):
                if w: raise Unsupported("padded text")
                out += text_of(en, s, p)
            elif ty == "char" and not w: out.append(en.load(s, p, 1))
            elif ty in SZ and ty != "char" and w:
                v = en.load(s, p, SZ[ty]); v = (zx if ty.startswith("unsigned") else sxw)(v, 32) if v.size() < 32 else v
                if v.size() > 32: raise Unsupported("wide argument")
                if not s.dry: en.prove("%s/pre/the number has at most %s digits" % (what, w), s, z3.And(v >= 0, v < 10 ** int(w)))
                s.assume(z3.And(v >= 0, v < 10 ** int(w))); ds = [simp(x) for x in digits(s, v, int(w))]; out += ds
                en.written = getattr(en, "written", {}); en.written[tuple(x.get_id() for x in ds)] = (v, ds)
            else: raise Unsupported("format of " + ty)
        if args: raise Unsupported("arguments without format")
        str_init(s, a[0])
        for b in out: str_push(en, s, a[0], b)
    e.intercepts.insert(0, (rx(r"^void utls::FormatTo<"), h))
def text_of(en, s, p):
    n = simp(str_len(s, p))
    if not isc(n): raise Unsupported("text of symbolic length")
    b = str_buf(s, p); return [en.load(s, padd(b, j), 1, check=False) for j in range(cval(n))]
import re
# ---- the reference reading -----------------------------------------------------------------------
class Text:
    """text of n bytes; at(p) beyond the end is never asked for"""
    def __init__(self, at, n): self.at = at; self.n = n
    def has(self, p): return z3.ULT(p, self.n)
    def isb(self, p, c): return z3.And(self.has(p), self.at(p) == ord(c))
    def digit(self, p): return z3.And(self.has(p), inrange(self.at(p), '0', '9'))
    def num(self, p, w, lo, hi):
        """up to w digits at p: (at least one and the number is in range, position behind, number); an incomplete number is raised to lo"""
        ok = self.digit(p); cnt = BV(0, 64); v = c32(0); run = z3.BoolVal(True)
        for k in range(w):
            run = z3.And(run, self.digit(p + k)); v = z3.If(run, v * 10 + zx(self.at(p + k) - 48, 32), v); cnt = z3.If(run, BV(k + 1, 64), cnt)
        return z3.And(ok, z3.Implies(run, z3.And(v >= lo, v <= hi))), p + cnt, z3.If(z3.And(z3.Not(run), v < lo), c32(lo), v)
def reference(t, w3c, frac, br):
    """None if the text is no date, else (seconds since the epoch, has an offset, offset in minutes). frac(p): first position from p
    on that is no digit. br decides a condition on the path at hand."""
    p = BV(0, 64); vals = [c32(0), c32(1), c32(1), c32(0), c32(0), c32(0)]; S = lambda v: sxw(v, 64)
    def result(zone, off):
        y, m, d, h, M, s = vals
        if not br(valid(y, m, d)): return None
        day = DAYS(y, m, d)
        return S(day) * 86400 + S(h) * 3600 + S(M) * 60 + S(s) - off * 60, zone, off, day
    none = BV(0, 64)
    if not w3c and br(t.isb(p, 'D')):
        if not br(t.isb(p + 1, ':')): return None
        p = BV(2, 64)
    seps = [None, '-', '-', 'T', ':', ':']; rng = [(0, 9999), (1, 12), (1, 31), (0, 23), (0, 59), (0, 59)]
    sign = lambda q: z3.Or(t.isb(q, '+'), t.isb(q, '-'), t.isb(q, 'Z'))
    zone = False
    for k in range(6):
        if k > 0:      # what may follow the field before this one
            if not br(t.has(p)): return result(False, none)
            if (not w3c or k == 5) and br(sign(p)): zone = True; break
            if w3c:
                if not br(t.isb(p, seps[k])): return None
                p = simp(p + 1)
        dig = t.digit(p); g, q, v = t.num(p, 4 if k == 0 else 2, *rng[k])
        if not br(dig) or not br(g): return None
        p = q; vals[k] = v
    if not zone:
        if w3c and br(t.isb(p, '.')): p = frac(simp(p + 1))
        if not br(t.has(p)): return result(False, none)
        if not br(sign(p)): return None
    sg = -1 if br(t.isb(p, '-')) else 0 if br(t.isb(p, 'Z')) else 1; p = simp(p + 1); off = none
    if br(t.has(p)):
        dig = t.digit(p); g, p, zh = t.num(p, 2, 0, 23)
        if not br(dig) or not br(g): return None
        off = S(zh) * 60
        if br(t.isb(p, ':' if w3c else "'")):
            p = simp(p + 1)
            if br(t.has(p)):
                dig = t.digit(p); g, p, zm = t.num(p, 2, 0, 59)
                if not br(dig) or not br(g): return None
                off = off + S(zm)
                if not w3c and br(t.isb(p, "'")): p = simp(p + 1)
        if br(t.has(p)): return None
        if sg == 0 and not br(off == 0): return None
    return result(True, -off if sg < 0 else off if sg > 0 else none)
def leaves(e, st, f):
    """every way through f on this path: (conditions, result)"""
    todo = [[]]; keep = []
    while todo:
        script = todo.pop(); q = st.clone(); n = [0]; sol = z3.Solver(); sol.set("timeout", 1500); sol.add(*(list(q.pc) + list(q.facts))); known = set(); more = [simp(x) for x in q.pc]
        while more:
            x = more.pop(); known.add(x.get_id()); keep.append(x)
            if z3.is_and(x): more += x.children()
        def br(c):
            c = simp(c)
            if z3.is_true(c): return True
            if z3.is_false(c): return False
            cs = c.children() if z3.is_and(c) else [c]
            if all(x.get_id() in known for x in cs): return True
            if any(simp(z3.Not(x)).get_id() in known for x in cs): return False
            if n[0] == len(script):
                t = sol.check(c) != z3.unsat
                if t and sol.check(z3.Not(c)) != z3.unsat: todo.append(script + [(False, True)]); script.append((True, True))
                else: script.append((t, False))
            r, free = script[n[0]]; n[0] += 1
            if free: q.assume(c if r else z3.Not(c)); sol.add(c if r else z3.Not(c))
            return r
        yield q, f(br)
# ---- the parsers -----------------------------------------------------------------------------------
def frac_fn(at, n): # position of the first non-digit
    FR = z3.Function("first_non_digit", z3.BitVecSort(64), z3.BitVecSort(64)); return FR
PFN = "parseFixLenNumber"
def number(e, s, t, args, base):
    """contract of parseFixLenNumber(cursor&, width, min, max, value&) on the text at base"""
def absnum(p, w, lo, hi):
    f = lambda n, r: z3.Function("number_%s_%d_%d_%d" % (n, w, lo, hi), z3.BitVecSort(64), r)
    return f("ok", z3.BoolSort())(p), f("end", z3.BitVecSort(64))(p), f("value", B32)(p)
def use_number(e):
    from contracts.common import find_opt
    F = find_opt(e.m, PFN)
    if F is None: return
    def h(en, s, a, i):
        cur, w, lo, hi, ret = a; p = s.rd(cur, 8, "ptr"); w, lo, hi = cval(w), sval(lo), sval(hi); R = s.mem[p.rid]
        end = en.rsize(s, R) - 1; b = Ptr(p.rid, 0)
        # precondition: the cursor is inside a text that is followed by a zero
        if not s.dry: en.prove("%s/pre/the cursor is inside the text" % PFN, s, z3.ULE(p.off, end))
        s.assume(z3.ULE(p.off, end))
        ok, q, v = absnum(p.off, w, lo, hi)   # the number at that position, left abstract: shared with the reference reading
        s.assume(z3.And(z3.UGE(q, p.off), z3.ULE(q, end), z3.Implies(ok, z3.And(z3.UGT(q, p.off), v >= lo, v <= hi, inrange(en.load(s, p, 1, check=False), '0', '9')))))
        s.wr(cur, 8, Ptr(p.rid, q)); s.wr(ret, 4, simp(v)); return ok
    e.contracts[F] = h
@proof("existing days")
def existing(u):
    """year_month_day::ok() of the date library holds exactly for the days of the calendar (years 0 to 9999)"""
    e = u.engine(""); st = State(e); p = st.new_region("date", 4); y, m, d = st.rd(p, 2), st.rd(padd(p, 2), 1), st.rd(padd(p, 3), 1); st.assume(z3.And(y >= 0, y <= 9999))
    F = [k for k, f in u.m.fns.items() if not f["decl"] and f["dem"].startswith("date::year_month_day::ok()")]
    if not F: return
    ps = e.run(F[0], [p], st); finals(e, ps, "ok"); nothrow(e, ps, "ok")
    for x in ps: e.prove("year_month_day::ok/post/the day exists", x, tobool(x.ret) == valid(sxw(y, 32), zx(m, 32), zx(d, 32)))
@proof("numbers")
def numbers(u):
    """parseFixLenNumber reads up to w digits, for every text, width up to 4 and range"""
    for w, lo, hi in ((4, 0, 9999), (2, 1, 12), (2, 1, 31), (2, 0, 23), (2, 0, 59)):
        e = u.engine("%d digits from %d to %d: " % (w, lo, hi)); st = State(e); n = z3.BitVec("n", 64); st.assume(z3.ULE(n, BV(1 << 40, 64)))
        b = st.new_region("text", simp(n + 1)); arr = e.flatten(st, b).arr; st.assume(z3.Select(arr, n) == 0); p = z3.BitVec("p", 64); st.assume(z3.ULE(p, n))
        cur = st.new_region("cursor", 8); st.wr(cur, 8, Ptr(b.rid, p)); ret = st.new_region("value", 4)
        ps = e.run(u.m.find(PFN), [cur, c32(w), c32(lo), c32(hi), ret], st); finals(e, ps, PFN); nothrow(e, ps, PFN)
        T = Text(lambda q: z3.Select(arr, q), n); ok, q, v = T.num(p, w, lo, hi)
        for x in ps:
            e.prove(PFN + "/post/succeeds exactly for a number in range", x, tobool(x.ret) == ok)
            c = x.rd(cur, 8, "ptr"); e.prove(PFN + "/post/stops behind the digits", x, z3.Implies(ok, c.off == q))
            e.prove(PFN + "/post/the number", x, z3.Implies(ok, x.rd(ret, 4) == v))
            e.prove(PFN + "/post/stays in the text, moves on success", x, z3.And(z3.UGE(c.off, p), z3.ULE(c.off, n), z3.Implies(ok, z3.And(z3.UGT(q, p), v >= lo, v <= hi, T.digit(p)))))
def parse(u, w3c, prefix=None):
    what = "TryParseW3C" if w3c else "TryParse"
    e = u.engine(""); st = State(e); lib(e); use_number(e); n = z3.BitVec("n", 64); st.assume(z3.ULE(n, BV(1 << 40, 64)))
    b = st.new_region("text", n); arr = e.flatten(st, b).arr; v = st.new_region("view", 16); st.wr(v, 8, n); st.wr(padd(v, 8), 8, b); out = st.new_obj("date", DT)
    if prefix is not None: d = z3.And(n != 0, z3.Select(arr, BV(0, 64)) == ord('D')); st.assume(d if prefix else z3.Not(d))
    FR = frac_fn(arr, n); T = Text(lambda q: z3.Select(arr, q), n); T.num = absnum
    def here(s2, h):      # the loop-carried position in the copied text
        out = []
        for rid in h.fr.allocas:
            R = s2.mem[rid]
            out += [c[1] for o, c in sorted(R.cells.items()) if isinstance(c[1], Ptr) and s2.mem[c[1].rid].name == "strbuf"]
        return out
    def inv(h):
        a, b_ = here(h.st, h), here(h.st0, h)
        a += [h.phis[i] for i, v0, _ in h.entry if i in h.phis and isinstance(h.phis[i], Ptr)]; b_ += [v0 for i, v0, _ in h.entry if i in h.phis and isinstance(h.phis[i], Ptr)]
        if len(a) != 1 or len(b_) != 1: raise Unsupported("position in the fraction")
        c, c0 = a[0].off, b_[0].off
        return [("inside the fraction", z3.And(z3.ULE(c0, c), z3.ULT(c, n))), ("the fraction ends at the same place", FR(c + 1) == FR(c0 + 1))]
    def facts(h):
        a = here(h.st, h) + [x for x in h.phis.values() if isinstance(x, Ptr)]; q = a[0].off; q0 = (here(h.st0, h) + [v0 for i, v0, _ in h.entry if i in h.phis and isinstance(h.phis[i], Ptr)])[0].off
        return [FR(x) == z3.If(T.digit(x), FR(x + 1), x) for x in (q, q + 1, q0 + 1)]
    loops = [LoopSpec(inv=inv, facts=lambda h: facts(h), name="fraction")] if w3c else []
    ps = e.run(u.m.find(DT + "::" + what), [v, out], st, loops); finals(e, ps, what); nothrow(e, ps, what)
    for p in ps:
        r = tobool(p.ret)
        for q, res in leaves(e, p, lambda br: reference(T, w3c, lambda x: FR(simp(x + 1)) if br(T.digit(x)) else x, br)):
            if res is None: e.prove(what + "/post/text that is no date of this form is rejected", q, z3.Not(r)); continue
            e.prove(what + "/post/dates of this form are accepted", q, r)
            if z3.is_false(simp(r)): continue
            secs, zone, off, _ = res
            s = q.fld(out, DT, "m_SecondsFromEpoch"); mp = q.fptr(out, DT, "m_MinutesFromUtc"); hv = z3.Extract(0, 0, q.rd(mp, 1)) == 1
            e.prove(what + "/post/has an offset exactly when the text has one", q, hv == z3.BoolVal(zone))
            if zone: e.prove(what + "/post/the offset", q, q.rd(padd(mp, 8), 8) == off)
            e.prove(what + "/post/the instant", q, s == secs)
@proof("parse pdf with prefix")
def parsepdf(u): parse(u, False, True)
@proof("parse pdf without prefix")
def parsepdf2(u): parse(u, False, False)
@proof("parse w3c")
def parsew3c(u): parse(u, True)
def roundtrip(u, w3c):
    what = "ToStringW3C" if w3c else "ToString"
    for offset, up in ((False, False), (False, True), (True, False), (True, True)):
        e = u.engine("%s, %s: " % ("with an offset" if offset else "without an offset", "inside of a day before 1970" if up else "otherwise")); st = State(e); lib(e); fmt(e, what)
        d = st.new_obj("date", DT); D64, h, M, S_ = z3.BitVec("day", 64), *(zx(z3.BitVec(x, 6), 32) for x in ("hour", "minute", "second")); oh, om = (zx(z3.BitVec(x, 6), 32) for x in ("offset_hours", "offset_minutes"))
        D = simp(z3.Extract(31, 0, D64)); st.assume(z3.And(D64 >= FIRST, D64 <= LAST, h >= 0, h < 24, M >= 0, M < 60, S_ >= 0, S_ < 60, oh >= 0, oh < 24, om >= 0, om < 60)); w = lambda x: z3.SignExt(32, x)
        ext = [(simp(w(D)), D64), (simp(w(D + 1)), D64 + 1)]
        for x, y in ext: e.prove("a day number keeps its value in 64 bits", st, x == y)
        e.sextc = lambda s, r: next((y for x, y in ext if x.eq(simp(r))), r)
        T = w(h) * 3600 + w(M) * 60 + w(S_); local = D64 * 86400 + T; neg = z3.Bool("offset_is_negative"); off = (lambda t: z3.If(neg, -t, t))(w(oh) * 60 + w(om)) if offset else BV(0, 64)
        st.assume(z3.And(D64 < 0, T > 0) if up else z3.Or(D64 >= 0, T == 0)); st.assume(z3.And(T >= 0, T < 86400))
        secs = local - off * 60
        e.quotients += [(local, 86400, D64 + 1 if up else D64, T - 86400 if up else T), (T, 3600, w(h), T - w(h) * 3600), (T - w(h) * 3600, 60, w(M), w(S_)), (T, 60, w(h) * 60 + w(M), w(S_))]
        e.quotients += [(c32(60) * oh + om, 60, oh, om)]
        mp = st.fptr(d, DT, "m_MinutesFromUtc"); st.setfld(d, DT, "m_SecondsFromEpoch", secs); st.wr(mp, 1, u8(1 if offset else 0)); st.wr(padd(mp, 8), 8, off)
        W = st.new_region("written text", 64); st.wr(padd(W, 60), 4, c32(-1))
        def ctor(en, s, a, i):
            if "basic_string_view" in en.m.fns[i["f"][1]]["dem"]: bs = [en.load(s, padd(en.load(s, padd(a[1], 8), 8, "ptr"), j), 1) for j in range(cval(simp(en.load(s, a[1], 8))))]
            else: bs = text_of(en, s, a[1])
            for j, b in enumerate(bs): s.wr(padd(W, j), 1, b)
            s.wr(padd(W, 60), 4, c32(len(bs)))
        e.intercepts.insert(0, (rx(r"^mm::PdfString::PdfString\(std::"), ctor))
        ret = st.new_obj("text", "mm::PdfString")
        ps = e.run(u.m.find(DT + "::createStringRepresentation"), [ret, d, BV(1 if w3c else 0, 1)], st); finals(e, ps, what); nothrow(e, ps, what)
        for p in ps:
            n = cval(simp(p.rd(padd(W, 60), 4))); bs = [p.rd(padd(W, j), 1) for j in range(n)]
            e.prove(what + "/post/not empty", p, z3.BoolVal(n > 0))
            T = Text(lambda q: (bs + [u8(0)] * 64)[cval(simp(q))], BV(n, 64)); num = T.num; known = getattr(e, 'written', {})
            def fixed(q, w_, lo, hi, T=T, n=n):     # all digits are there: the sum of the digits
                i = cval(simp(q))
                key = tuple(simp(b).get_id() for b in bs[i:i + w_])
                if key not in known: return num(q, w_, lo, hi)
                v = known[key][0]      # these are the digits of v
                return z3.And(*[T.digit(q + k) for k in range(w_)], v >= lo, v <= hi), BV(i + w_, 64), v
            T.num = fixed
            for q, res in leaves(e, p, lambda br: reference(T, w3c, lambda x: x, br)):
                e.prove(what + "/post/the text is a date of this form", q, z3.BoolVal(res is not None))
                if res is None: continue
                if e.prove(what + "/post/the same day", q, res[3] == D): res = (z3.substitute(simp(z3.substitute(res[0], (res[3], D))), *[(x, simp(y)) for x, y in ext]),) + res[1:]
                e.prove(what + "/post/the same instant", q, res[0] == secs)
                e.prove(what + "/post/has an offset exactly when the date has one", q, z3.BoolVal(res[1] == offset))
                if offset: e.prove(what + "/post/the same offset", q, res[2] == off)
@proof("write pdf")
def writepdf(u): roundtrip(u, False)
@proof("write w3c")
def writew3c(u): roundtrip(u, True)
@proof("comparison")
def comparison(u):
    """two dates are equal exactly when they are the same instant and have the same offset or both none"""
    for op, neg in (("operator==", False), ("operator!=", True)):
        e = u.engine(op + ": "); st = State(e); ds = [st.new_obj("a", DT), st.new_obj("b", DT)]; v = []
        for d in ds:
            mp = st.fptr(d, DT, "m_MinutesFromUtc"); st.assume(z3.ULE(st.rd(mp, 1), 1)); v.append((st.rd(mp, 1), st.rd(padd(mp, 8), 8), st.fld(d, DT, "m_SecondsFromEpoch")))
        F = u.m.find(DT + "::" + op); ps = e.run(F, ds, st); finals(e, ps, op); nothrow(e, ps, op)
        for p in ps: e.prove("PdfDate::%s/post/same instant and offset" % op, p, tobool(p.ret) == z3.Xor(z3.BoolVal(neg), z3.And(v[0][0] == v[1][0], z3.Implies(v[0][0] == 1, v[0][1] == v[1][1]), v[0][2] == v[1][2])))
@proof("seconds of a day")
def lemma(u):
    """every number of seconds of the range is a day, hour, minute and second, every offset of less than a day hours and minutes: the writing contract covers them all"""
    e = u.engine(""); st = State(e); s, o = z3.Ints("s o")
    D, T = s / 86400, s % 86400
    e.prove("lemma/seconds are day, hour, minute and second", st, z3.Implies(z3.And(s >= FIRST * 86400, s < (LAST + 1) * 86400), z3.And(D >= FIRST, D <= LAST, T / 3600 < 24, (T % 3600) / 60 < 60, s == D * 86400 + (T / 3600) * 3600 + ((T % 3600) / 60) * 60 + T % 60, T % 60 < 60, T >= 0)))
    a = z3.If(o < 0, -o, o); e.prove("lemma/offsets are hours and minutes", st, z3.Implies(z3.And(o > -1440, o < 1440), z3.And(a / 60 < 24, a % 60 < 60, a == (a / 60) * 60 + a % 60)))
