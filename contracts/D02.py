"""D02 big-endian integers."""
from engine.api import *
from contracts.tokcommon import enum_val
TUS = ["private/PdfDeclarationsPrivate.cpp"]
LEVEL = "proof"
BOUNDED_NOTE = "native: all 65536 16-bit values and boundary, single-bit, random 32-bit values in every signedness, through buffers and devices, one after the other"
TRUSTED = ["the target is little endian (the other branch of AS_BIG_ENDIAN is not compiled here)"]
UNITS, BOUNDED, proof, bounded = registry()
KINDS = [("UInt32", 32, "unsigned int"), ("Int32", 32, "int"), ("UInt16", 16, "unsigned short"), ("Int16", 16, "short")]
def fn(u, name, args):
    r = [k for k, f in u.m.fns.items() if not f["decl"] and f["dem"].replace(" ", "") == ("utls::%s(%s)" % (name, args)).replace(" ", "")]
    if len(r) != 1: raise Unsupported("utls::%s(%s): %d definitions" % (name, args, len(r)))
    return r[0]
def be(st, p, w):   # the value stored at p, most significant byte first
    return z3.Concat(*[st.rd(padd(p, i), 1) for i in range(w // 8)])
@proof("buffers")
def bufs(u):
    for k, w, t in KINDS:
        n = w // 8
        e = u.engine(""); st = State(e); buf = st.new_region("buf", n); v = z3.BitVec("value", w)
        ps = e.run(fn(u, "Write%sBE" % k, "char*, " + t), [buf, v], st); finals(e, ps, "Write%sBE" % k); nothrow(e, ps, "Write%sBE" % k)
        for p in ps: e.prove("Write%sBE/post/most significant byte first" % k, p, be(p, buf, w) == v)
        e = u.engine(""); st = State(e); buf = st.new_region("buf", n); out = st.new_region("value", n); want = be(st, buf, w)
        ps = e.run(fn(u, "Read%sBE" % k, "char const*, %s&" % t), [buf, out], st); finals(e, ps, "Read%sBE" % k); nothrow(e, ps, "Read%sBE" % k)
        for p in ps: e.prove("Read%sBE/post/value of the bytes, most significant first" % k, p, z3.And(p.rd(out, n) == want, be(p, buf, w) == want))
@proof("streams")
def streams(u):
    for k, w, t in KINDS:
        n = w // 8
        e = u.engine(""); st = State(e); out = new_stream(st); v = z3.BitVec("value", w); o0 = stream_val(st, out)
        ps = e.run(fn(u, "Write%sBE" % k, "mm::OutputStream&, " + t), [out, v], st); what = "Write%sBE(stream)" % k; finals(e, ps, what); nothrow(e, ps, what)
        want = o0
        for i in range(n): want = snoc(want, z3.Extract(w - 1 - 8 * i, w - 8 - 8 * i, v))
        for p in ps: e.prove(what + "/post/exactly its bytes are written, most significant first", p, stream_val(p, out) == want)
        e = u.engine(""); st = State(e); N = z3.BitVec("n", 64); st.assume(z3.ULE(N, BV(1 << 40, 64))); pos = z3.BitVec("pos", 64); st.assume(z3.ULE(pos, N)); dev, arr = new_input(st, "device", N, pos); o = st.new_region("value", n)
        def read(en, s, a, i):   # contract of InputStream::Read(buffer, size), proved under D01
            p0, L, d = s.ghost[("inpos", a[0].rid)], s.ghost[("inlen", a[0].rid)], s.ghost[("indata", a[0].rid)]
            if not en.check_access(s, a[1], a[2], "read target", i): raise PathEnd("bad")
            if not isc(simp(a[2])): raise Unsupported("read of symbolic size")
            c = cval(simp(a[2]))
            for j in range(c): s.wr(padd(a[1], j), 1, z3.Select(d, p0 + j))
            s.assume(z3.ULE(BV(c, 64), L - p0)); s.ghost[("inpos", a[0].rid)] = simp(p0 + c)
        e.intercepts.insert(0, (rx(r"^mm::InputStream::Read\(char\*, unsigned long\)"), read)); e.assumed.add("InputStream::Read(buffer, n) delivers the next n bytes or raises (proved under D01)")
        ps = e.run(fn(u, "Read%sBE" % k, "mm::InputStream&, %s&" % t), [dev, o], st); what = "Read%sBE(stream)" % k; finals(e, ps, what); nothrow(e, ps, what)
        want = z3.Concat(*[z3.Select(arr, pos + i) for i in range(n)])
        for p in ps: e.prove(what + "/post/value of the next bytes, exactly as many are consumed", p, z3.And(p.rd(o, n) == want, in_pos(p, dev) == pos + n))
@proof("swap")
def swap(u):
    """byte swapping a UTF-16 string: every code unit, each once"""
    dem = [k for k, f in u.m.fns.items() if not f["decl"] and f["dem"].startswith("utls::ByteSwap(std::__cxx11::basic_string<char16_t")]
    if len(dem) != 1: raise Unsupported("ByteSwap(u16string): %d definitions" % len(dem))
    e = u.engine(""); st = State(e); so = st.new_region("str", 32); n = z3.BitVec("n", 64); st.assume(z3.ULT(n, BV(1 << 31, 64))); buf, arr = st.buffer("chars", n * 2)
    C = r"^std::__cxx11::basic_string<char16_t, std::char_traits<char16_t>, std::allocator<char16_t> ?>::"
    T = "libstdc++ std::u16string behaves as specified by the C++ standard"
    e.intercepts.insert(0, (rx(C + r"(length|size)\(\)"), lambda en, s, a, i: n)); e.intercepts.insert(0, (rx(C + r"operator\[\]\("), lambda en, s, a, i: padd(buf, a[1] * 2))); e.assumed.add(T)
    def inv(h):
        cur = e.flatten(h.st, buf).arr; q = fresh("q", 64)
        b = lambda a, i: z3.Select(a, i)
        return [("swapped so far", z3.ForAll([q], z3.Implies(z3.ULT(q, n), z3.And(*[b(cur, 2 * q + j) == z3.If(z3.ULT(q, h.k), b(arr, 2 * q + 1 - j), b(arr, 2 * q + j)) for j in (0, 1)])), patterns=[z3.Select(cur, 2 * q)]))]
    ps = e.run(dem[0], [so], st, [LoopSpec(inv=inv, name="units")]); finals(e, ps, "ByteSwap"); nothrow(e, ps, "ByteSwap")
    q = z3.BitVec("unit", 64)
    for p in ps:
        cur = e.flatten(p, buf).arr
        e.prove("ByteSwap/post/the bytes of every code unit are exchanged", p, z3.Implies(z3.ULT(q, n), z3.And(*[z3.Select(cur, 2 * q + j) == z3.Select(arr, 2 * q + 1 - j) for j in (0, 1)])))
