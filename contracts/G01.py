"""G01 rectangles and transformations. The geometry is proved over the real numbers (doubles taken as reals); what must hold for the
doubles themselves (normalisation: which corner is kept, sizes never negative) is proved on IEEE-754 doubles."""
from engine.api import *
from contracts.tokcommon import enum_val
TUS = ["base/PdfRect.cpp", "base/PdfMath.cpp", "@drv/G01.cpp"]
LEVEL = "proof"
LEVEL_NOTE = "The geometric identities are proved over real numbers: machine arithmetic on doubles is treated as mathematical there (rounding, overflow and NaN left out). Normalisation is proved on IEEE doubles. The native search uses coordinates for which doubles are exact, and compares exactly."
BOUNDED_NOTE = "native: corners, intersections, containment and transformations over grids and random coordinates for which doubles are exact, compared exactly; extreme doubles for the sign of sizes; the array form written and parsed as text"
TRUSTED = ["machine arithmetic: doubles are treated as real numbers except in the unit 'corners on doubles'", "sin and cos are arbitrary functions", "PdfArray delivers the elements added to it (V01)", "objects deliver the number they hold (V01)"]
UNITS, BOUNDED, proof, bounded = registry()
RC, MX, V2 = "mm::PdfRect", "mm::Matrix", "mm::Vector2"
R4 = ("m_Left", "m_Bottom", "m_Width", "m_Height")
def real(u):
    e = u.engine(""); e.reals = True
    e.intercepts.insert(0, (lambda n, d: n.startswith("llvm.fmuladd"), lambda en, s, a, i: a[0] * a[1] + a[2]))
    for k in ("sin", "cos"):
        f = z3.Function(k + "_", z3.RealSort(), z3.RealSort())
        e.intercepts.insert(0, (lambda n, d, k=k: n == k or d == "std::%s(double)" % k or n == "llvm.%s.f64" % k, lambda en, s, a, i, f=f: f(a[0])))
    return e
def reals(*ns): return [z3.Real(n) for n in ns]
def rect(st, name, vs=None):
    p = st.new_region(name, 32); vs = vs or reals(*[name + "." + k for k in R4])
    for k, v in zip(R4, vs): st.setfld(p, RC, k, v)
    return p, vs
def fld(s, p, c, k):
    o, sz, t = s.eng.m.field(c, k); return s.rd(padd(p, o), 8, "double")
def rget(p, r): return [fld(p, r, RC, k) for k in R4]
def mat(st, name, vs=None):
    p = st.new_region(name, 48); vs = vs or reals(*["%s%d" % (name, i) for i in range(6)])
    for i, v in enumerate(vs): st.wr(padd(p, 8 * i), 8, v)
    return p, vs
def mget(p, r): return [p.rd(padd(r, 8 * i), 8, "double") for i in range(6)]
def vec(st, name, vs=None):
    p = st.new_region(name, 16); vs = vs or reals(name + ".x", name + ".y")
    for i, v in enumerate(vs): st.wr(padd(p, 8 * i), 8, v)
    return p, vs
def inside(r, x, y): return z3.And(x >= r[0], x <= r[0] + r[2], y >= r[1], y <= r[1] + r[3])
def app(v, m): return [m[0] * v[0] + m[2] * v[1] + m[4], m[1] * v[0] + m[3] * v[1] + m[5]]
def both(a, b): return z3.And(*[x == y for x, y in zip(a, b)])
def fn(u, dem):
    r = [k for k, f in u.m.fns.items() if not f["decl"] and f["dem"].replace(" ", "") == dem.replace(" ", "")]
    if len(r) != 1: raise Unsupported("%s: %d definitions" % (dem, len(r)))
    return r[0]
def run(u, e, dem, args, st):
    ps = e.run(fn(u, dem), args, st); finals(e, ps, short(dem) + dem[dem.index("("):].replace("mm::", "")); nothrow(e, ps, short(dem)); return [p for p in ps if p.kind != "throw"]
def vret(p): return list(p.ret.els) if isinstance(p.ret, Agg) else None
def call_m(u, e, st, dem, args):
    """a member returning a matrix or rectangle in memory"""
    out = st.new_region("result", 48); return out, run(u, e, dem, [out] + args, st)

@proof("corners")
def corners(u):
    e = real(u); st = State(e); x1, y1, x2, y2 = reals("x1", "y1", "x2", "y2"); out = st.new_region("result", 32)
    for p in run(u, e, "mm::PdfRect::FromCorners(double, double, double, double)", [out, x1, y1, x2, y2], st):
        r = rget(p, out); mn = lambda a, b: z3.If(a <= b, a, b); mx = lambda a, b: z3.If(a <= b, b, a)
        e.prove("FromCorners/post/sizes are not negative", p, z3.And(r[2] >= 0, r[3] >= 0))
        e.prove("FromCorners/post/the corners are those given", p, z3.And(r[0] == mn(x1, x2), r[1] == mn(y1, y2), r[0] + r[2] == mx(x1, x2), r[1] + r[3] == mx(y1, y2)))
    for k, i, j in (("GetRight", 0, 2), ("GetTop", 1, 3)):
        e = real(u); st = State(e); a, v = rect(st, "a")
        for p in run(u, e, "mm::PdfRect::%s() const" % k, [a], st): e.prove("%s/post" % k, p, p.ret == v[i] + v[j])
    e = real(u); st = State(e); a, v = rect(st, "a"); x, y = reals("x", "y")
    for p in run(u, e, "mm::PdfRect::Contains(double, double) const", [a, x, y], st): e.prove("Contains/post/exactly the points between the corners", p, tobool(p.ret) == inside(v, x, y))
    e = real(u); st = State(e); a = st.new_region("a", 32); vs = reals("l", "b", "w", "h")
    for p in run(u, e, "mm::PdfRect::PdfRect(double, double, double, double)", [a] + vs, st): e.prove("PdfRect/post/has the values given", p, both(rget(p, a), vs))
    e = real(u); st = State(e); a = st.new_region("a", 32)
    for p in run(u, e, "mm::PdfRect::PdfRect()", [a], st): e.prove("PdfRect()/post/is empty at the origin", p, both(rget(p, a), [z3.RealVal(0)] * 4))
@proof("corners on doubles")
def dbl(u):
    e = u.engine(""); st = State(e); F = z3.Float64(); v = [z3.FP(n, F) for n in ("x1", "y1", "x2", "y2")]; out = st.new_region("result", 32); x1, y1, x2, y2 = v
    for x in v: st.assume(z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x))))
    ps = e.run(fn(u, "mm::PdfRect::FromCorners(double, double, double, double)"), [out] + v, st); finals(e, ps, "FromCorners on doubles"); nothrow(e, ps, "FromCorners on doubles")
    for p in ps:
        if p.kind == "throw": continue
        r = rget(p, out)
        e.prove("FromCorners on doubles/post/the lower corner is one of those given, exactly", p, z3.And(z3.fpEQ(r[0], z3.If(z3.fpLEQ(x1, x2), x1, x2)), z3.fpEQ(r[1], z3.If(z3.fpLEQ(y1, y2), y1, y2))))
        for n, w, a, b in (("width", r[2], x1, x2), ("height", r[3], y1, y2)):
            e.prove("FromCorners on doubles/post/the %s is the correctly rounded distance" % n, p, z3.fpEQ(w, z3.If(z3.fpLEQ(a, b), z3.fpSub(RNE, b, a), z3.fpSub(RNE, a, b))))
    a, b = z3.FP("a", F), z3.FP("b", F)
    e.prove("lemma/a rounded distance is not negative", None, z3.Implies(z3.And(z3.Not(z3.fpIsInf(a)), z3.Not(z3.fpIsInf(b)), z3.fpLEQ(a, b)), z3.fpGEQ(z3.fpSub(RNE, b, a), z3.FPVal(0, F))))
def arrays(e, st, vs):
    """the array holds len(vs) numbers; elements added are recorded"""
    arr = st.new_region("array", 64); els = [st.new_region("element%d" % i, 128) for i in range(len(vs))]; val = {x.rid: v for x, v in zip(els, vs)}
    st.ghost["elements"] = tuple(vs)
    def at(en, s, a, i):
        k = simp(a[1])
        if not isc(k): raise Unsupported("element at a symbolic index")
        k = cval(k); en.prove("FromArray/pre/only elements of the array are read", s, z3.BoolVal(k < len(els))); return els[k] if k < len(els) else els[0]
    for n, h in ((r"^mm::PdfArray::operator\[\]\(unsigned long\)", at), (r"^mm::PdfArray::(size|GetSize)\(\) const", lambda en, s, a, i: BV(len(vs), 64 if "size" in i.get("f", ["", ""])[1] else 32)),
                 (r"^mm::PdfObject::GetReal\(\) const", lambda en, s, a, i: val[a[0].rid] if a[0].rid in val else s.ghost[("obj", a[0].rid)])):
        e.intercepts.insert(0, (rx(n), h))
    def clear(en, s, a, i): s.ghost["elements"] = ()
    def mk(en, s, a, i): s.ghost[("obj", a[0].rid)] = a[1]
    def add(en, s, a, i): s.ghost["elements"] = s.ghost["elements"] + (s.ghost[("obj", a[1].rid)],)
    for n, h in ((r"^mm::PdfArray::Clear\(\)", clear), (r"^mm::PdfObject::PdfObject\(mm::PdfVariant", lambda en, s, a, i: s.ghost.__setitem__(("obj", a[0].rid), s.ghost[("obj", a[1].rid)])), (r"^mm::PdfVariant::PdfVariant\(double\)", mk), (r"^mm::PdfObject::PdfObject\(double\)", mk),
                 (r"^mm::PdfArray::Add\(mm::PdfObject", add), (r"^mm::Pdf(Object|Variant)::~Pdf", lambda en, s, a, i: None)):
        e.intercepts.insert(0, (rx(n), h))
    return arr
@proof("arrays")
def arr_(u):
    for n in (4, 0, 3, 5):
        e = real(u); st = State(e); vs = reals(*["e%d" % i for i in range(n)]); arr = arrays(e, st, vs); a, v = rect(st, "a")
        ps = e.run(fn(u, "mm::PdfRect::FromArray(mm::PdfArray const&)"), [a, arr], st); what = "FromArray with %d elements" % n; finals(e, ps, what)
        for p in ps:
            if n != 4:
                e.prove(what + "/post/raises ValueOutOfRange", p, z3.BoolVal(False) if p.kind != "throw" else p.exc["code"] == BV(enum_val(u, "mm::PdfErrorCode", "ValueOutOfRange"), p.exc["code"].size()))
                e.prove(what + "/post/the rectangle is left as it was", p, both(rget(p, a), v)); continue
            if p.kind == "throw": e.prove(what + "/post/does not raise", p, z3.BoolVal(False)); continue
            r = rget(p, a); mn = lambda a, b: z3.If(a <= b, a, b); mx = lambda a, b: z3.If(a <= b, b, a)
            e.prove(what + "/post/the rectangle between the two corners", p, z3.And(r[0] == mn(vs[0], vs[2]), r[1] == mn(vs[1], vs[3]), r[0] + r[2] == mx(vs[0], vs[2]), r[1] + r[3] == mx(vs[1], vs[3]), r[2] >= 0, r[3] >= 0))
    e = real(u); st = State(e); arr = arrays(e, st, reals("old0", "old1")); a, v = rect(st, "a")
    for p in run(u, e, "mm::PdfRect::ToArray(mm::PdfArray&) const", [a, arr], st):
        el = p.ghost["elements"]; e.prove("ToArray/post/left, bottom, right, top", p, z3.And(z3.BoolVal(len(el) == 4), both(el, [v[0], v[1], v[0] + v[2], v[1] + v[3]]))); e.prove("ToArray/frame", p, both(rget(p, a), v))
    l, b, w, h, r, t = reals("l", "b", "w", "h", "r", "t")
    e.prove("lemma/written and read back it is the same rectangle", None, z3.Implies(z3.And(w >= 0, h >= 0, r == l + w, t == b + h), z3.And(z3.If(l <= r, l, r) == l, z3.If(b <= t, b, t) == b, z3.If(l <= r, r, l) - l == w, z3.If(b <= t, t, b) - b == h)))
    e = real(u); st = State(e); arr = arrays(e, st, reals("old0", "old1")); m, v = mat(st, "m")
    for p in run(u, e, "mm::Matrix::ToArray(mm::PdfArray&) const", [m, arr], st): el = p.ghost["elements"]; e.prove("Matrix::ToArray/post/the six coefficients", p, z3.And(z3.BoolVal(len(el) == 6), both(el, v)))
    e = real(u); st = State(e); vs = reals(*["e%d" % i for i in range(6)]); arr = arrays(e, st, vs)
    out, ps = call_m(u, e, st, "mm::Matrix::FromArray(mm::PdfArray const&)", [arr])
    for p in ps: e.prove("Matrix::FromArray/post/the six coefficients", p, both(mget(p, out), vs))
@proof("intersection")
def inter(u):
    e = real(u); st = State(e); a, v = rect(st, "a"); b, w = rect(st, "b"); x, y = reals("x", "y")
    for p in run(u, e, "mm::PdfRect::Intersect(mm::PdfRect const&)", [a, b], st):
        r = rget(p, a); zero = both(w, [z3.RealVal(0)] * 4)
        e.prove("Intersect/post/exactly the points common to both", p, z3.Implies(z3.Not(zero), inside(r, x, y) == z3.And(inside(v, x, y), inside(w, x, y))))
        e.prove("Intersect/post/the empty rectangle at the origin does not restrict", p, z3.Implies(zero, both(r, v)))
        e.prove("Intersect/frame/the other rectangle is not changed", p, both(rget(p, b), w))
    e = real(u); st = State(e); a, v = rect(st, "a")
    for p in run(u, e, "mm::PdfRect::Intersect(mm::PdfRect const&)", [a, a], st): e.prove("Intersect with itself/post", p, both(rget(p, a), v))
@proof("transformations")
def tr(u):
    one, zero = z3.RealVal(1), z3.RealVal(0)
    e = real(u); st = State(e); v, x = vec(st, "v"); m, c = mat(st, "m")
    for p in run(u, e, "mm::Vector2::operator*(mm::Matrix const&) const", [v, m], st): e.prove("Vector2 * Matrix/post", p, both(vret(p), app(x, c)))
    e = real(u); st = State(e); m, a = mat(st, "m"); n, b = mat(st, "n"); q = reals("x", "y")
    out, ps = call_m(u, e, st, "mm::Matrix::operator*(mm::Matrix const&) const", [m, n])
    for p in ps:
        r = mget(p, out); l, k = app(q, r), app(app(q, a), b)
        for i, nm in ((0, "x"), (1, "y")): e.prove("Matrix * Matrix/post/transforms a point by the first, then by the second (%s)" % nm, p, z3.simplify(l[i] - k[i], som=True) == 0)
    def point(what, f, want, args=(), margs=None):
        e = real(u); st = State(e); ar = [g(st) for g in args]
        out, ps = call_m(u, e, st, f, [x[0] if isinstance(x, tuple) else x for x in ar])
        for p in ps: r = mget(p, out); q = reals("x", "y"); e.prove(what, p, z3.And(*[z3.simplify(i - j, som=True) == 0 for i, j in zip(app(q, r), want(q, *[x[1] if isinstance(x, tuple) else x for x in ar]))]))
    point("CreateTranslation/post/moves every point", "mm::Matrix::CreateTranslation(mm::Vector2 const&)", lambda q, t: [q[0] + t[0], q[1] + t[1]], [lambda st: vec(st, "t")])
    point("CreateScale/post/scales every point", "mm::Matrix::CreateScale(mm::Vector2 const&)", lambda q, t: [q[0] * t[0], q[1] * t[1]], [lambda st: vec(st, "t")])
    sn, cs = z3.Function("sin_", z3.RealSort(), z3.RealSort()), z3.Function("cos_", z3.RealSort(), z3.RealSort()); th = z3.Real("teta")
    rot = lambda q, c, t: [c[0] + cs(t) * (q[0] - c[0]) - sn(t) * (q[1] - c[1]), c[1] + sn(t) * (q[0] - c[0]) + cs(t) * (q[1] - c[1])]
    point("CreateRotation/post/turns every point about the centre", "mm::Matrix::CreateRotation(mm::Vector2 const&, double)", rot, [lambda st: vec(st, "c"), lambda st: th])
    point("CreateRotation/post/turns every point about the origin", "mm::Matrix::CreateRotation(double)", lambda q, t: rot(q, [zero, zero], t), [lambda st: th])
    point("FromCoefficients/post", "mm::Matrix::FromCoefficients(double, double, double, double, double, double)", lambda q, *c: app(q, c), [lambda st, i=i: z3.Real("c%d" % i) for i in range(6)])
    point("Translated/post/moves the point first", "mm::Matrix::Translated(mm::Vector2 const&) const", lambda q, m, t: app([q[0] + t[0], q[1] + t[1]], m), [lambda st: mat(st, "m"), lambda st: vec(st, "t")])
    for op, want in (("==", lambda a, b: both(a, b)), ("!=", lambda a, b: z3.Not(both(a, b)))):
        e = real(u); st = State(e); m, a = mat(st, "m"); n, b = mat(st, "n")
        for p in run(u, e, "mm::Matrix::operator%s(mm::Matrix const&) const" % op, [m, n], st): e.prove("Matrix %s/post/compares all coefficients" % op, p, tobool(p.ret) == want(a, b))
    for op, f in (("+", lambda a, b: a + b), ("-", lambda a, b: a - b)):
        e = real(u); st = State(e); v, x = vec(st, "v"); w, y = vec(st, "w")
        for p in run(u, e, "mm::Vector2::operator%s(mm::Vector2 const&) const" % op, [v, w], st): e.prove("Vector2 %s/post" % op, p, both(vret(p), [f(x[0], y[0]), f(x[1], y[1])]))
        e = real(u); st = State(e); v, x = vec(st, "v"); w, y = vec(st, "w")
        for p in run(u, e, "mm::Vector2::operator%s=(mm::Vector2 const&)" % op, [v, w], st): e.prove("Vector2 %s=/post" % op, p, both([p.rd(v, 8, "double"), p.rd(padd(v, 8), 8, "double")], [f(x[0], y[0]), f(x[1], y[1])]))
    # a rectangle under scaling and translation: a point is in the image exactly if it comes from a point of the rectangle
    e = real(u); st = State(e); sx, sy, tx, ty, x, y = reals("sx", "sy", "tx", "ty", "x", "y"); a, v = rect(st, "a"); m, c = mat(st, "m", [sx, zero, zero, sy, tx, ty])
    st.assume(z3.And(v[2] >= 0, v[3] >= 0)); out = st.new_region("result", 32)
    for p in run(u, e, "mm::PdfRect::operator*(mm::Matrix const&) const", [out, a, m], st):
        r = rget(p, out); e.prove("PdfRect * Matrix/post/sizes are not negative", p, z3.And(r[2] >= 0, r[3] >= 0))
        X, Y = [v[0] * sx + tx, (v[0] + v[2]) * sx + tx], [v[1] * sy + ty, (v[1] + v[3]) * sy + ty]
        e.prove("PdfRect * Matrix/post/the rectangle between the transformed corners", p, z3.And(*[z3.And(r[k] == z3.If(P[0] <= P[1], P[0], P[1]), r[k] + r[k + 2] == z3.If(P[0] <= P[1], P[1], P[0])) for k, P in ((0, X), (1, Y))]))
