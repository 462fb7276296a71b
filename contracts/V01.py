"""V01 values."""
from engine.api import *
from contracts.tokcommon import enum_val
TUS = ["base/PdfVariant.cpp", "base/PdfReference.cpp", "base/PdfObject.cpp", "base/PdfString.cpp", "base/PdfName.cpp", "base/PdfArray.cpp", "base/PdfDictionary.cpp"]
LEVEL = "proof"
BOUNDED_NOTE = "native: every getter, setter and comparison on all pairs of a pool of values of every type (boundary numbers, reals, strings, names, references, nested arrays and dictionaries), directly and inside objects"
TRUSTED = ["std::vector and std::map compare element by element, std::string compares its characters", "std::shared_ptr holds the pointer it was given",
           "delayed loading is done (the object has been loaded)", "reals converted to integers are in the range of the integer type"]
UNITS, BOUNDED, proof, bounded = registry()
VA, OB, RF = "mm::PdfVariant", "mm::PdfObject", "mm::PdfReference"
TYPES = ("Unknown", "Bool", "Number", "Real", "String", "Name", "Array", "Dictionary", "Null", "Reference", "RawData")
DATA = {"String": "mm::PdfString", "Name": "mm::PdfName", "Array": "mm::PdfArray", "Dictionary": "mm::PdfDictionary", "RawData": "mm::PdfData"}
ERR = "mm::PdfErrorCode"
F64 = z3.Float64()
def tag(u, st, v, t):
    st.setfld(v, VA, "m_DataType", BV(enum_val(u, "mm::PdfDataType", t), st.fld(v, VA, "m_DataType").size()))
def var_init(u, st, v, t, name):
    """a value of type t with arbitrary content at v"""
    tag(u, st, v, t); D = st.fptr(v, VA, "m_Data"); P = None
    if t in DATA: P = st.new_region(name + "_content", 256); st.wr(D, 8, P)
    else:
        if t == "Bool": st.assume(z3.ULE(st.rd(D, 1), 1))
    return D, P
def content(st, D, t):
    return st.rd(D, 8) if t not in ("Bool", "Reference") else st.rd(D, 1) if t == "Bool" else z3.Concat(st.rd(padd(D, 4), 2), st.rd(D, 4))
def find_m(u, cls, name, sig=None):
    r = [k for k, f in u.m.fns.items() if not f["decl"] and f["dem"].startswith("%s::%s(" % (cls, name)) and (sig is None or f["dem"][len(cls) + len(name) + 3:].replace(" ", "").startswith(sig.replace(" ", "") + ")"))]
    if len(r) != 1: raise Unsupported("%s::%s (%s): %d definitions" % (cls, name, sig, len(r)))
    return r[0]
def setup(u, cls, t, prefix):
    e = u.engine(prefix); st = State(e); tags(e)
    this = st.new_region("this", u.m.sizeof(cls)); v = this if cls == VA else st.fptr(this, OB, "m_Variant")
    if cls == OB:
        st.wr(st.fptr(this, OB, "m_IsDelayedLoadDone"), 1, BV(1, 8)); st.wr(st.fptr(this, OB, "m_IsDelayedLoadStreamDone"), 1, BV(1, 8))
        st.wr(st.fptr(this, OB, "m_Parent"), 8, Ptr(0, 0)); st.wr(st.fptr(this, OB, "m_IsDirty"), 1, BV(0, 8))
    D, P = var_init(u, st, v, t, "value")
    return e, st, this, v, D, P
def tags(e):
    """copies and assignments of the heap values are recorded: the target then has the content of the source"""
    for c in ("PdfString", "PdfName", "PdfArray", "PdfDictionary", "PdfData"):
        def copy(en, s, a, i): s.ghost[("same", a[0].rid)] = s.ghost.get(("same", a[1].rid), a[1].rid)
        def asg(en, s, a, i): copy(en, s, a, i); return a[0]
        e.intercepts.insert(0, (rx(r"^mm::%s::%s\(mm::%s ?(const&|&&)\)" % (c, c, c)), copy))
        e.intercepts.insert(0, (rx(r"^mm::%s::operator=\(mm::%s ?(const&|&&)\)" % (c, c)), asg))
        def dflt(en, s, a, i): s.ghost[("same", a[0].rid)] = "empty"
        e.intercepts.insert(0, (rx(r"^mm::%s::%s\(\)" % (c, c)), dflt))
        e.intercepts.insert(0, (rx(r"^mm::%s::~%s\(\)" % (c, c)), lambda en, s, a, i: None))
    def rnd(en, s, a, i): return z3.fpRoundToIntegral(z3.RNA(), a[0])
    e.intercepts.insert(0, (rx(r"^(std::round\(double\)|round|llvm\.round\.f64)$"), rnd))
def src(s, p): return s.ghost.get(("same", p.rid), p.rid)
def bits(v): return v if z3.is_bv(v) else z3.fpToIEEEBV(v)
def asreal(x): return z3.fpBVToFP(x, F64)
def toint(x):
    f = x.arg(0) if z3.is_app_of(x, z3.Z3_OP_FPA_TO_IEEE_BV) else asreal(x)   # the value itself, not its bits and back
    return z3.fpToSBV(z3.RTZ(), z3.fpRoundToIntegral(z3.RNA(), f), z3.BitVecSort(64))
def toint_(x): return z3.fpToSBV(z3.RTZ(), z3.fpRoundToIntegral(z3.RNA(), asreal(x)), z3.BitVecSort(64))
def inrange64(x): return z3.And(z3.Not(z3.fpIsNaN(asreal(x))), z3.fpLT(asreal(x), z3.FPVal(2.0 ** 63, F64)), z3.fpGEQ(asreal(x), z3.FPVal(-2.0 ** 63, F64)))
def widened(x): return z3.fpToIEEEBV(z3.fpSignedToFP(z3.RNE(), x, F64))
# accessor name -> {type: content as delivered}, size of the result
SC = {"Bool": {"Bool": lambda x: x}, "Number": {"Number": lambda x: x}, "NumberLenient": {"Number": lambda x: x, "Real": toint}, "Real": {"Real": lambda x: x, "Number": widened}, "RealStrict": {"Real": lambda x: x}, "Reference": {"Reference": lambda x: x}}
SZ = {"Bool": 1, "Reference": 6}
def ret_eq(p, v, n):
    """a scalar result as n bytes"""
    r = p.ret
    if isinstance(r, Agg): r = z3.Concat(*[x for x in reversed(r.els)])
    if z3.is_bool(r): r = z3.If(r, BV(1, 8 * n), BV(0, 8 * n))
    r = bits(r)
    return z3.Extract(8 * n - 1, 0, r) if r.size() >= 8 * n else z3.ZeroExt(8 * n - r.size(), r)
def eqv(a, b, fp):
    return z3.Or(a == b, z3.And(z3.fpIsNaN(asreal(a)), z3.fpIsNaN(asreal(b)))) if fp else a == b
def thrown(u, p, code="InvalidDataType"):
    c = p.exc.get("code"); return z3.BoolVal(False) if c is None else c == BV(enum_val(u, ERR, code), c.size())
def frame(e, p, u, v, D, t, old, what):
    tg = BV(enum_val(u, "mm::PdfDataType", t), p.fld(v, VA, "m_DataType").size())
    e.prove(what + "/post/the value is left as it was", p, z3.And(p.fld(v, VA, "m_DataType") == tg, z3.BoolVal(same_cell(p, D, old, t))) if t in DATA else z3.And(p.fld(v, VA, "m_DataType") == tg, content(p, D, t) == old))
def same_cell(p, D, old, t):
    q = p.rd(D, 8, "ptr"); return isinstance(q, Ptr) and q.rid == old.rid and isc(simp(q.off)) and cval(simp(q.off)) == 0
def getters(u, cls):
    short_ = cls.split("::")[1]
    for t in TYPES:
        for k, acc in SC.items():
            n = SZ.get(k, 8)
            for tr in (False, True):
                nm = ("TryGet" if tr else "Get") + k; what = "%s::%s on %s" % (short_, nm, t)
                e, st, this, v, D, P = setup(u, cls, t, ""); old = P if t in DATA else content(st, D, t)
                if k == "NumberLenient" and t == "Real": st.assume(inrange64(old))
                F = find_m(u, cls, nm)
                if tr: out = st.new_region("out", n); ps = e.run(F, [this, out], st)
                else: ps = e.run(F, [this], st)
                finals(e, ps, what)
                for p in ps:
                    frame(e, p, u, v, D, t, old, what)
                    fp = k.startswith("Real")
                    if t in acc:
                        if p.kind == "throw": e.prove(what + "/post/succeeds", p, z3.BoolVal(False)); continue
                        want = acc[t](old); got = (p.rd(out, n) if n != 6 else z3.Concat(p.rd(padd(out, 4), 2), p.rd(out, 4))) if tr else ret_eq(p, None, n)
                        e.prove(what + "/post/delivers the content", p, z3.And(tobool(p.ret) if tr else z3.BoolVal(True), eqv(got, want, fp)))
                    elif tr: e.prove(what + "/post/reports failure", p, z3.BoolVal(False) if p.kind == "throw" else z3.Not(tobool(p.ret)))
                    else: e.prove(what + "/post/raises InvalidDataType", p, thrown(u, p) if p.kind == "throw" else z3.BoolVal(False))
        for k, c in DATA.items():
            if k == "RawData": continue
            cnst = k in ("Array", "Dictionary")
            for f in [x for x in u.m.fns.values() if not x["decl"] and (x["dem"].startswith("%s::Get%s(" % (cls, k)) or x["dem"].startswith("%s::TryGet%s(" % (cls, k)))]:
                F = [n_ for n_, x in u.m.fns.items() if x is f][0]; tr = "TryGet" in f["dem"]; what = "%s on %s" % (f["dem"].replace("mm::", ""), t)
                byptr = "*" in f["dem"]
                e, st, this, v, D, P = setup(u, cls, t, ""); old = P if t in DATA else content(st, D, t)
                if tr:
                    out = st.new_region("out", 8 if byptr else 256)
                    ps = e.run(F, [this, out], st)
                else: ps = e.run(F, [this], st)
                finals(e, ps, what)
                for p in ps:
                    frame(e, p, u, v, D, t, old, what)
                    if p.kind == "throw": e.prove(what + "/post/raises InvalidDataType only for another type", p, z3.And(thrown(u, p), z3.BoolVal(t != k and not tr))); continue
                    if t != k: e.prove(what + "/post/fails for another type", p, z3.And(z3.BoolVal(tr), z3.Not(tobool(p.ret)) if tr else z3.BoolVal(False))); continue
                    if not tr: ok = isinstance(p.ret, Ptr) and p.ret.rid == P.rid
                    elif byptr: q = p.rd(out, 8, "ptr"); ok = isinstance(q, Ptr) and q.rid == P.rid
                    else: ok = src(p, out) == P.rid
                    e.prove(what + "/post/delivers the content", p, z3.And(z3.BoolVal(bool(ok)), tobool(p.ret) if tr else z3.BoolVal(True)))
        IS = {"IsBool": ("Bool",), "IsNumber": ("Number",), "IsRealStrict": ("Real",), "IsNumberOrReal": ("Number", "Real"), "IsString": ("String",), "IsName": ("Name",), "IsArray": ("Array",), "IsDictionary": ("Dictionary",), "IsRawData": ("RawData",), "IsNull": ("Null",), "IsReference": ("Reference",)}
        for nm, ts in IS.items():
            e, st, this, v, D, P = setup(u, cls, t, ""); ps = e.run(find_m(u, cls, nm), [this], st); what = "%s::%s on %s" % (short_, nm, t); finals(e, ps, what); nothrow(e, ps, what)
            for p in ps: e.prove(what + "/post/tells the type", p, tobool(p.ret) == z3.BoolVal(t in ts))
def setters(u, cls):
    short_ = cls.split("::")[1]
    ACC = {"Bool": ("Bool",), "Number": ("Number", "Real"), "Real": ("Real", "Number"), "Reference": ("Reference",), "Name": ("Name",), "String": ("String",)}
    for t in TYPES:
        for k, ts in ACC.items():
            what = "%s::Set%s on %s" % (short_, k, t); e, st, this, v, D, P = setup(u, cls, t, ""); old = P if t in DATA else content(st, D, t)
            if k in DATA: arg = st.new_region("arg", 256)
            elif k == "Reference": arg = st.new_region("arg", 8)
            else: arg = z3.BitVec("x", 64) if k == "Number" else z3.FP("x", F64) if k == "Real" else z3.Bool("x")
            F = find_m(u, cls, "Set" + k)
            if k == "Bool" and u.m.fns[F]["params"][1].get("ty") not in (None,): pass
            if k == "Real" and t == "Number": st.assume(inrange64(z3.fpToIEEEBV(arg)))
            ps = e.run(F, [this, arg], st); finals(e, ps, what)
            for p in ps:
                if p.kind == "throw":
                    e.prove(what + "/post/raises InvalidDataType only for another type", p, z3.And(thrown(u, p), z3.BoolVal(t not in ts)))
                    frame(e, p, u, v, D, t, old, what); continue
                e.prove(what + "/post/raises for another type", p, z3.BoolVal(t in ts))
                if t not in ts: continue
                tg = BV(enum_val(u, "mm::PdfDataType", t), p.fld(v, VA, "m_DataType").size())
                if k in DATA: ok = z3.BoolVal(same_cell(p, D, P, t) and src(p, P) == arg.rid)
                elif k == "Reference": ok = content(p, D, t) == z3.Concat(p.rd(padd(arg, 4), 2), p.rd(arg, 4))
                elif k == "Bool": ok = content(p, D, t) == z3.If(arg, BV(1, 8), BV(0, 8))
                elif k == "Number": ok = content(p, D, t) == (arg if t == "Number" else widened(arg))
                else: ok = eqv(content(p, D, t), z3.fpToIEEEBV(arg), True) if t == "Real" else content(p, D, t) == toint(z3.fpToIEEEBV(arg))
                e.prove(what + "/post/keeps the type and has the new content", p, z3.And(p.fld(v, VA, "m_DataType") == tg, ok))
                if cls == OB:
                    ref = st.fptr(this, OB, "m_IndirectReference"); ind = z3.Or(p.fld(ref, RF, "m_ObjectNo") != 0, p.fld(ref, RF, "m_GenerationNo") != 0)
                    e.prove(what + "/post/an indirect object is marked as changed", p, z3.Implies(ind, p.rd(p.fptr(this, OB, "m_IsDirty"), 1) == 1))
@proof("read values")
def g1(u): getters(u, VA)
@proof("read objects")
def g2(u): getters(u, OB)
@proof("change values")
def s1(u): setters(u, VA)
@proof("change objects")
def s2(u): setters(u, OB)

CEQ = {c: z3.Function("equal_" + k, z3.BitVecSort(64), z3.BitVecSort(64), z3.BoolSort()) for k, c in DATA.items()}
def id_(p): return simp(BV(p.rid << 32, 64) + p.off)
def use_eq(e, cls, f):
    """contract of the comparison operators of a class: equality f on the objects, != its opposite"""
    e.intercepts.insert(0, (rx(r"^%s::operator==\(%s const&\)" % (cls, cls)), lambda en, s, a, i: f(id_(a[0]), id_(a[1]))))
    e.intercepts.insert(0, (rx(r"^%s::operator!=\(%s const&\)" % (cls, cls)), lambda en, s, a, i: simp(z3.Not(f(id_(a[0]), id_(a[1]))))))
@proof("compare values")
def compare(u):
    for op in ("==", "!="):
        F = find_m(u, VA, "operator" + op, VA + " const&")
        for t1 in TYPES:
            for t2 in TYPES + ("itself",):
                what = "PdfVariant::operator%s %s, %s" % (op, t1, t2)
                e = u.engine(""); st = State(e); tags(e)
                for k, c in DATA.items(): use_eq(e, c, CEQ[c])
                a = st.new_region("lhs", u.m.sizeof(VA)); D1, P1 = var_init(u, st, a, t1, "lhs")
                if t2 == "itself": b, D2, P2 = a, D1, P1
                else: b = st.new_region("rhs", u.m.sizeof(VA)); D2, P2 = var_init(u, st, b, t2, "rhs")
                ps = e.run(F, [a, b], st); finals(e, ps, what)
                for p in ps:
                    if p.kind == "throw": e.prove(what + "/post/raises only for raw data, where comparison is not implemented", p, z3.And(thrown(u, p, "NotImplemented"), z3.BoolVal(t1 == "RawData" and t2 != "itself"))); continue
                    if t2 == "itself": eq = z3.BoolVal(True)
                    elif t1 != t2 or t1 == "Unknown": eq = z3.BoolVal(False)
                    elif t1 in DATA: eq = CEQ[DATA[t1]](id_(P1), id_(P2))
                    elif t1 == "Null": eq = z3.BoolVal(True)
                    elif t1 == "Real": eq = z3.fpEQ(asreal(content(p, D1, t1)), asreal(content(p, D2, t2)))
                    else: eq = content(p, D1, t1) == content(p, D2, t2)
                    e.prove(what + "/post/equal exactly for the same type and content", p, tobool(p.ret) == (eq if op == "==" else z3.Not(eq)))
@proof("compare contents")
def compare2(u):
    # references
    for op in ("==", "!=", "<"):
        e = u.engine(""); st = State(e); a, b = (st.new_region(x, u.m.sizeof(RF)) for x in "ab"); ps = e.run(find_m(u, RF, "operator" + op), [a, b], st); finals(e, ps, "PdfReference::operator" + op); nothrow(e, ps, "PdfReference::operator" + op)
        n1, g1, n2, g2 = st.fld(a, RF, "m_ObjectNo"), st.fld(a, RF, "m_GenerationNo"), st.fld(b, RF, "m_ObjectNo"), st.fld(b, RF, "m_GenerationNo")
        eq = z3.And(n1 == n2, g1 == g2); want = {"==": eq, "!=": z3.Not(eq), "<": z3.Or(z3.ULT(n1, n2), z3.And(n1 == n2, z3.ULT(g1, g2)))}[op]
        for p in ps: e.prove("PdfReference::operator%s/post/compares number and generation" % op, p, tobool(p.ret) == want)
    # names and strings: by their characters
    for cls, dat in (("mm::PdfName", "NameData"), ("mm::PdfString", "StringData")):
        dc = cls + "::" + dat
        for op in ("==", "!="):
            for mode in ("other", "shared", "itself"):
                e = u.engine("%s/" % mode); st = State(e); objs = []
                for x in "ab":
                    o = st.new_region(x, u.m.sizeof(cls))
                    if mode == "shared" and objs: d = objs[0][1]
                    else: d = st.new_region("data_" + x, u.m.sizeof(dc)); str_init(st, st.fptr(d, dc, "Chars"), z3.BitVec("n" + x, 64))
                    st.wr(st.fptr(o, cls, "m_data"), 8, d); objs.append((o, d))
                    if cls == "mm::PdfString":
                        S = st.fld(d, dc, "State"); st.assume(z3.Or(*[S == BV(enum_val(u, "mm::PdfStringState", x), S.size()) for x in ("RawBuffer", "Ascii", "PdfDocEncoding", "Unicode")]))
                (o1, d1), (o2, d2) = objs
                if mode == "itself": o2, d2 = o1, d1
                SEQ = lambda s, d: str_seq(s, s.fptr(d, dc, "Chars"))
                def cmp(neg):
                    def h(en, s, a, i):
                        r = str_seq(s, a[0]) == str_seq(s, a[1]); return simp(z3.Not(r)) if neg else simp(r)
                    return h
                CS = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?> const&"
                e.intercepts.insert(0, (rx(r"^bool std::operator==<char.*>\(%s, %s\)" % (CS, CS)), cmp(False))); e.intercepts.insert(0, (rx(r"^bool std::operator!=<char.*>\(%s, %s\)" % (CS, CS)), cmp(True)))
                e.intercepts.insert(0, (rx(r"^std::(enable_if<.*>::type|__enable_if_t<.*>) std::operator==<char>\(%s" % CS), cmp(False)))
                F = find_m(u, cls, "operator" + op, cls + " const&"); what = cls.split("::")[1] + "::operator" + op
                ps = e.run(F, [o1, o2], st); finals(e, ps, what); nothrow(e, ps, what)
                for p in ps:
                    eq = SEQ(p, d1) == SEQ(p, d2); e.prove(what + "/post/compares the characters", p, tobool(p.ret) == (eq if op == "==" else z3.Not(eq)))
    # arrays and dictionaries: by their elements, which std::vector and std::map compare with PdfObject::operator==
    for cls, mem in (("mm::PdfArray", "m_Objects"), ("mm::PdfDictionary", "m_Map")):
        EL = z3.Function("elements_equal_" + mem, z3.BitVecSort(64), z3.BitVecSort(64), z3.BoolSort())
        for op in ("==", "!="):
            for mode in ("other", "itself"):
                e = u.engine("%s/" % mode); st = State(e); o1 = st.new_region("a", u.m.sizeof(cls)); o2 = o1 if mode == "itself" else st.new_region("b", u.m.sizeof(cls))
                pat = r"(std::vector<mm::PdfObject|std::map<mm::PdfName)"
                e.intercepts.insert(0, (rx(r"^bool std::operator==<.*\(%s" % pat), lambda en, s, a, i: EL(id_(a[0]), id_(a[1])))); e.intercepts.insert(0, (rx(r"^bool std::operator!=<.*\(%s" % pat), lambda en, s, a, i: simp(z3.Not(EL(id_(a[0]), id_(a[1]))))))
                ps = e.run(find_m(u, cls, "operator" + op, cls + " const&"), [o1, o2], st); what = cls.split("::")[1] + "::operator" + op; finals(e, ps, what); nothrow(e, ps, what)
                eq = z3.BoolVal(True) if mode == "itself" else EL(id_(st.fptr(o1, cls, mem)), id_(st.fptr(o2, cls, mem)))
                for p in ps: e.prove(what + "/post/compares the elements", p, tobool(p.ret) == (eq if op == "==" else z3.Not(eq)))
    # objects: indirect ones by document and reference, others by value
    VE = z3.Function("values_equal", z3.BitVecSort(64), z3.BitVecSort(64), z3.BoolSort())
    for op in ("==", "!="):
        for mode in ("other", "itself"):
            e = u.engine("%s/" % mode); st = State(e); use_eq(e, VA, VE)
            def obj(x):
                o = st.new_region(x, u.m.sizeof(OB)); st.wr(st.fptr(o, OB, "m_IsDelayedLoadDone"), 1, BV(1, 8)); d = z3.BitVec("doc" + x, 64); return o
            o1 = obj("a"); o2 = o1 if mode == "itself" else obj("b")
            docs = [st.new_region("doc%d" % i, 8) for i in range(2)]
            for same_doc in (True, False):
                s2 = st.clone(); s2.wr(s2.fptr(o1, OB, "m_Document"), 8, docs[0])
                if mode != "itself": s2.wr(s2.fptr(o2, OB, "m_Document"), 8, docs[0] if same_doc else docs[1])
                ps = e.run(find_m(u, OB, "operator" + op, OB + " const&"), [o1, o2], s2); what = "PdfObject::operator" + op; finals(e, ps, what); nothrow(e, ps, what)
                R = lambda p, o, f: p.fld(p.fptr(o, OB, "m_IndirectReference"), RF, f)
                for p in ps:
                    n1, g1, n2, g2 = R(p, o1, "m_ObjectNo"), R(p, o1, "m_GenerationNo"), R(p, o2, "m_ObjectNo"), R(p, o2, "m_GenerationNo")
                    eq = z3.BoolVal(True) if mode == "itself" else z3.If(z3.Or(n1 != 0, g1 != 0), z3.And(z3.BoolVal(same_doc), n1 == n2, g1 == g2), VE(id_(p.fptr(o1, OB, "m_Variant")), id_(p.fptr(o2, OB, "m_Variant"))))
                    e.prove(what + "/post/by reference if indirect, else by value", p, tobool(p.ret) == (eq if op == "==" else z3.Not(eq)))
        e = u.engine("value/"); st = State(e); use_eq(e, VA, VE); o1 = st.new_region("a", u.m.sizeof(OB)); st.wr(st.fptr(o1, OB, "m_IsDelayedLoadDone"), 1, BV(1, 8)); v2 = st.new_region("b", u.m.sizeof(VA))
        ps = e.run(find_m(u, OB, "operator" + op, VA + " const&"), [o1, v2], st); finals(e, ps, "PdfObject::operator" + op); nothrow(e, ps, "PdfObject::operator" + op)
        for p in ps: eq = VE(id_(st.fptr(o1, OB, "m_Variant")), id_(v2)); e.prove("PdfObject::operator%s/post/compares the value" % op, p, tobool(p.ret) == (eq if op == "==" else z3.Not(eq)))

@proof("make and copy")
def make(u):
    # construction from a value
    for t, sig, arg in (("Bool", "bool", z3.Bool("x")), ("Number", "long", z3.BitVec("x", 64)), ("Real", "double", z3.FP("x", F64))):
        e = u.engine(""); st = State(e); v = st.new_region("v", u.m.sizeof(VA)); ps = e.run(find_m(u, VA, "PdfVariant", sig), [v, arg], st); what = "PdfVariant(%s)" % sig; finals(e, ps, what); nothrow(e, ps, what)
        D = st.fptr(v, VA, "m_Data"); want = z3.If(arg, BV(1, 8), BV(0, 8)) if t == "Bool" else bits(arg)
        for p in ps: e.prove(what + "/post/type and content", p, z3.And(p.fld(v, VA, "m_DataType") == enum_val(u, "mm::PdfDataType", t), eqv(content(p, D, t), want, t == "Real")))
    for t, c in list(DATA.items()) + [("Reference", RF)]:
        for mv in (("const&", "&&") if t in ("Array", "Dictionary", "RawData") else ("const&",)):
            e = u.engine(""); st = State(e); tags(e); v = st.new_region("v", u.m.sizeof(VA)); a = st.new_region("arg", 256)
            ps = e.run(find_m(u, VA, "PdfVariant", "%s %s" % (c, mv)), [v, a], st); what = "PdfVariant(%s %s)" % (c, mv); finals(e, ps, what); nothrow(e, ps, what)
            D = st.fptr(v, VA, "m_Data")
            for p in ps:
                if t in DATA: q = p.rd(D, 8, "ptr"); ok = z3.BoolVal(isinstance(q, Ptr) and q.rid != a.rid and src(p, q) == a.rid)
                else: ok = content(p, D, t) == z3.Concat(p.rd(padd(a, 4), 2), p.rd(a, 4))
                e.prove(what + "/post/type and content", p, z3.And(ok, p.fld(v, VA, "m_DataType") == enum_val(u, "mm::PdfDataType", t)))
    # copying and moving keep type and content, whatever was there before
    for kind in ("copy constructor", "move constructor", "copy assignment", "move assignment"):
        for t in TYPES:
            for old in (TYPES if "assign" in kind else (None,)):
                for selfa in ((False, True) if "assign" in kind and t == old else (False,)):
                    e = u.engine(""); st = State(e); tags(e)
                    # deleting content: ends its life, checked by the engine on every later access
                    def dele(en, s, a, i):
                        if isinstance(a[0], Ptr) and a[0].rid: r = s.mem[a[0].rid].clone(); r.live = False; s.mem[a[0].rid] = r
                    e.intercepts.insert(0, (rx(r"^mm::PdfVariant::clear\(\)"), lambda en, s, a, i: clear(u, en, s, a[0], dele)))
                    b = st.new_region("rhs", u.m.sizeof(VA)); D2, P2 = var_init(u, st, b, t, "rhs"); cont = P2 if t in DATA else content(st, D2, t)
                    if selfa: v = b
                    else:
                        v = st.new_region("v", u.m.sizeof(VA))
                        if old: var_init(u, st, v, old, "old")
                    mv = kind.startswith("move"); sig = VA + (" &&" if mv else " const&")
                    F = find_m(u, VA, "PdfVariant" if "constr" in kind else "operator=", sig); what = "PdfVariant %s of %s%s" % (kind, t, " from itself" if selfa else " over " + old if old else "")
                    ps = e.run(F, [v, b], st); finals(e, ps, what); nothrow(e, ps, what)
                    D = st.fptr(v, VA, "m_Data")
                    for p in ps:
                        if t in DATA:
                            q = p.rd(D, 8, "ptr"); ok = isinstance(q, Ptr) and q.rid in p.mem and p.mem[q.rid].live is not False and src(p, q) == P2.rid and (mv or selfa or q.rid != P2.rid); ok = z3.BoolVal(ok)
                        elif t in ("Unknown", "Null"): ok = z3.BoolVal(True)
                        else: ok = content(p, D, t) == cont
                        e.prove(what + "/post/same type and content", p, z3.And(ok, p.fld(v, VA, "m_DataType") == enum_val(u, "mm::PdfDataType", t)))
def clear(u, e, s, v, dele):
    t = [k for k in TYPES if cval(s.fld(v, VA, "m_DataType")) == enum_val(u, "mm::PdfDataType", k)][0]
    if t in DATA:
        q = e.load(s, s.fptr(v, VA, "m_Data"), 8, "ptr"); 
        if q.rid: r = s.mem[q.rid].clone(); r.live = False; s.mem[q.rid] = r
