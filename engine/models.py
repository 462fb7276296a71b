"""Assumed contracts of external functions (compiler intrinsics, C++ runtime, libstdc++, ...).
Every entry used in a run is listed in the evidence as assumed."""
import re, z3
from .core import *
from . import core

Bytes = z3.Datatype("Bytes")
Bytes.declare("nil")
Bytes.declare("snoc", ("pre", Bytes), ("last", z3.BitVecSort(8)))
Bytes = Bytes.create()
NIL = Bytes.nil
def snoc(s, b): return Bytes.snoc(s, b)
APP = z3.Function("appendrange", Bytes, ARR, z3.BitVecSort(64), z3.BitVecSort(64), Bytes)
def append_range(eng, st, seq, p, n):
    """seq ++ n bytes of memory at p"""
    n = simp(n)
    if isc(n) and cval(n) <= 256:
        for i in range(cval(n)): seq = snoc(seq, eng.load(st, padd(p, i), 1, check=False))
        return seq
    if not isc(n):
        lim = eng.small_bound(st, n)
        if lim is not None:
            alts = [seq]
            for i in range(lim): alts.append(snoc(alts[-1], eng.load(st, padd(p, i), 1, check=False)))
            r = alts[lim]
            for i in range(lim - 1, -1, -1): r = z3.If(n == i, alts[i], r)
            return r
    if eng.bmc:
        # split on the (bounded) length is done by the caller
        raise Unsupported("symbolic length in bounded mode")
    r = eng.flatten(st, p)
    return z3.If(n == 0, seq, APP(seq, r.arr, p.off, n))

# ---- ghost streams ---------------------------------------------------------------------------------
def new_stream(st, name="out", init=None):
    p = st.new_region("stream_" + name, 64, sym=True)
    st.ghost[("out", p.rid)] = init if init is not None else z3.Const("out0_" + name, Bytes)
    return p
def stream_val(st, p): return st.ghost[("out", p.rid)]

# ---- ghost input devices ---------------------------------------------------------------------------
def new_input(st, name, n, pos=None):
    """An input device over n bytes of data at position pos: contract of InputStreamDevice (D01 proves the in-memory
    devices against it). Returns (pointer, data array)."""
    p = st.new_region("input_" + name, 64, sym=True)
    arr = z3.Const("data_" + name, ARR)
    st.ghost[("inpos", p.rid)] = BV(0, 64) if pos is None else pos
    st.ghost[("inlen", p.rid)] = n; st.ghost[("indata", p.rid)] = arr
    return p, arr
def in_pos(st, p): return st.ghost[("inpos", p.rid)]

def is_pred(*names):
    """match demangled names equal to (without args) any of names"""
    ns = set(names)
    def m(name, dem): return core.short(dem) in ns or dem in ns
    return m
def rx(pat):
    r = re.compile(pat)
    return lambda name, dem: r.search(dem) is not None
def nrx(pat):
    r = re.compile(pat)
    return lambda name, dem: r.search(name) is not None

SS = r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>::"
def okey(p):
    if not isc(p.off): raise Unsupported("string at symbolic offset")
    return (p.rid, cval(p.off))
def str_init(st, p, n=None, sym=True, name="str", seq=None):
    k = okey(p)
    b = st.new_region("strbuf", BV(0, 64), True, "str")
    st.mem[b.rid].owner = k; 
    st.ghost[("strlen",) + k] = BV(0, 64) if n is None else n
    st.ghost[("strbuf",) + k] = b.rid
    st.ghost[("strseq",) + k] = NIL if n is None else (seq if seq is not None else z3.Const("seq_%d" % b.rid, Bytes))
    return b
def str_buf(st, p):
    k = okey(p)
    if ("strbuf",) + k not in st.ghost: raise Unsupported("string not modelled")
    return Ptr(st.ghost[("strbuf",) + k], 0)
def str_len(st, p):
    k = okey(p)
    if ("strlen",) + k not in st.ghost: raise Unsupported("string not modelled")
    return st.ghost[("strlen",) + k]
def str_seq(st, p): return st.ghost[("strseq",) + okey(p)]
def str_setlen(st, p, n): st.ghost[("strlen",) + okey(p)] = simp(n)
def str_push(eng, st, p, c):
    b = str_buf(st, p); n = str_len(st, p)
    if z3.is_bv(c) and c.size() != 8: c = simp(z3.Extract(7, 0, c))
    eng.store(st, Ptr(b.rid, n), 1, c, check=False)
    str_setlen(st, p, n + 1)
    k = ("strseq",) + okey(p)
    st.ghost[k] = snoc(st.ghost[k], c)
def str_clear(st, p):
    str_setlen(st, p, BV(0, 64)); st.ghost[("strseq",) + okey(p)] = NIL
def str_append(eng, st, p, src, n):
    """append n bytes at src"""
    b = str_buf(st, p); l = str_len(st, p); k = ("strseq",) + okey(p)
    n = simp(n)
    seq = append_range(eng, st, st.ghost[k], src, n)
    eng.memcpy(st, Ptr(b.rid, l), src, n, check=False)
    str_setlen(st, p, l + n); st.ghost[k] = seq

def install(e):
    I = e.intercepts
    def add(m, h, assumed=None):
        def hh(en, s, a, i):
            if assumed: en.assumed.add(assumed)
            return h(en, s, a, i)
        I.append((m, hh))
    nop = lambda e, s, a, i: None
    add(nrx(r"^llvm\.(lifetime|dbg|assume|experimental|invariant|donothing|prefetch)"), nop)
    def memcpy(e, s, a, i): e.memcpy(s, a[0], a[1], a[2])
    def cmemcpy(e, s, a, i): e.memcpy(s, a[0], a[1], a[2]); return a[0]
    add(nrx(r"^llvm\.mem(cpy|move)\."), memcpy)
    add(nrx(r"^(memcpy|memmove)$"), cmemcpy)
    def memcmp(e, s, a, i):
        if not isc(a[2]) or cval(a[2]) > 64: raise Unsupported("memcmp of symbolic length")
        r = BV(0, 32)
        for j in range(cval(a[2]) - 1, -1, -1):
            x, y = (z3.ZeroExt(24, e.load(s, padd(p, j), 1)) for p in a[:2]); r = z3.If(x == y, r, x - y)
        return simp(r)
    add(nrx(r"^(memcmp|bcmp)$"), memcmp)
    def memset(e, s, a, i): e.memset(s, a[0], a[1], a[2])
    add(nrx(r"^llvm\.memset\."), memset)
    def mm(f):
        def h(e, s, a, i):
            if len(a) == 2 and isinstance(a[0], Ptr): raise Unsupported("ptr minmax")
            return simp(f(a[0], a[1]))
        return h
    add(nrx(r"^llvm\.umin\."), mm(lambda a, b: z3.If(z3.ULT(a, b), a, b)))
    add(nrx(r"^llvm\.umax\."), mm(lambda a, b: z3.If(z3.UGT(a, b), a, b)))
    add(nrx(r"^llvm\.smin\."), mm(lambda a, b: z3.If(a < b, a, b)))
    add(nrx(r"^llvm\.smax\."), mm(lambda a, b: z3.If(a > b, a, b)))
    add(nrx(r"^llvm\.abs\."), lambda e, s, a, i: simp(z3.If(a[0] < 0, -a[0], a[0])))
    add(nrx(r"^llvm\.expect\."), lambda e, s, a, i: a[0])
    add(nrx(r"^llvm\.bswap\."), lambda e, s, a, i: simp(z3.Concat(*[z3.Extract(8 * j + 7, 8 * j, a[0]) for j in range(a[0].size() // 8)])))
    add(nrx(r"^llvm\.fabs\."), lambda e, s, a, i: simp(z3.fpAbs(a[0])))
    add(nrx(r"^llvm\.is\.constant"), lambda e, s, a, i: z3.BoolVal(False))
    add(nrx(r"^llvm\.fshl\.(i\d+)"), lambda e, s, a, i: fsh(a, True))
    add(nrx(r"^llvm\.objectsize"), lambda e, s, a, i: BV(-1, 64))
    def fsh(a, left):
        w = a[0].size()
        c = z3.Concat(a[0], a[1]); sh = z3.ZeroExt(w, z3.URem(a[2], BV(w, w)))
        return simp(z3.Extract(2 * w - 1, w, c << sh))
    def ovf(kind):
        def h(e, s, a, i):
            x, y = a; w = x.size()
            if kind == "uadd": r = x + y; o = z3.Not(z3.BVAddNoOverflow(x, y, False))
            elif kind == "umul": r = x * y; o = z3.Not(z3.BVMulNoOverflow(x, y, False))
            elif kind == "usub": r = x - y; o = z3.ULT(x, y)
            elif kind == "sadd": r = x + y; o = z3.Not(z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)))
            elif kind == "ssub": r = x - y; o = z3.Not(z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)))
            elif kind == "smul": r = x * y; o = z3.Not(z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)))
            return Agg([simp(r), simp(o)])
        return h
    for k in ("uadd", "umul", "usub", "sadd", "ssub", "smul"): add(nrx(r"^llvm\.%s\.with\.overflow" % k), ovf(k))
    add(nrx(r"^llvm\.eh\.typeid\.for"), lambda e, s, a, i: BV(e.typeid(tiname(e, a[0])), 32))
    def tiname(e, p):
        for n, r in e.globals_rid.items():
            if r == p.rid: return n
        raise Unsupported("typeid")
    # ---- C++ runtime
    def opnew(e, s, a, i):
        n = simp(a[0])
        return s.new_region("heap", n, sym=False, kind="heap")
    add(nrx(r"^_Zn[wa]m(RKSt9nothrow_t)?$"), opnew, "operator new returns fresh memory of the requested size (never fails)")
    def opdel(e, s, a, i):
        if a[0].rid and a[0].rid in s.mem:
            r = s.mem[a[0].rid].clone(); r.live = False; s.mem[a[0].rid] = r
    add(nrx(r"^_Zd[la]Pv(m|St11align_val_t|mSt11align_val_t)?$"), opdel)
    add(nrx(r"^(free)$"), opdel)
    add(nrx(r"^malloc$"), opnew, "malloc returns fresh memory (never fails)")
    add(nrx(r"^__cxa_allocate_exception$"), lambda e, s, a, i: s.new_region("exception", a[0], sym=False))
    add(nrx(r"^__cxa_free_exception$"), nop)
    def throw(e, s, a, i):
        t = tiname(e, a[1])
        s.exc = {"ptr": a[0], "type": t, "code": s.ghost.get(("exc", a[0].rid))}
        s._in_resume = False
        return UNWIND
    add(nrx(r"^__cxa_throw$"), throw)
    def rethrow(e, s, a, i):
        s.exc = s.ghost.get(("caught",), s.exc); s._in_resume = False
        return UNWIND
    add(nrx(r"^__cxa_rethrow$"), rethrow)
    def begin_catch(e, s, a, i):
        s.ghost[("caught",)] = s.exc
        return a[0]
    add(nrx(r"^__cxa_begin_catch$"), begin_catch)
    add(nrx(r"^__cxa_end_catch$"), nop)
    add(nrx(r"^__clang_call_terminate$|^_ZSt9terminatev$|^abort$"), lambda e, s, a, i: _end())
    def _end(): raise PathEnd("terminate")
    add(nrx(r"^__cxa_guard_acquire$"), lambda e, s, a, i: BV(1, 32))
    add(nrx(r"^__cxa_guard_(release|abort)$"), nop)
    add(nrx(r"^__cxa_atexit$"), lambda e, s, a, i: BV(0, 32))
    # ---- PdfError: only the error code is observable
    def mkerr(e, s, a, i):
        if isinstance(a[0], Ptr): s.ghost[("exc", a[0].rid)] = a[1]
    add(rx(r"^mm::PdfError::PdfError\(mm::PdfErrorCode"), mkerr, "PdfError constructor records the error code and does not fail")
    add(rx(r"^mm::PdfError::(~PdfError|AddToCallstack|PdfError)\("), nop)
    add(rx(r"^mm::LogMessage|^void mm::LogMessage|^mm::(anonymous|logMessage)|^void mm::PdfCommon::|^mm::PdfError::(DebugMessage|LogMessage)"), nop, "logging has no effect on the property")
    add(rx(r"^mm::PdfDataProvider::~?PdfDataProvider\("), nop)
    def ctype(lo, hi):
        def h(e, s, a, i):
            c = a[0]; return simp(z3.If(z3.And(c >= lo, c <= hi), BV(1, c.size()), BV(0, c.size())))
        return h
    add(nrx(r"^isdigit$"), ctype(48, 57), "isdigit is true exactly for 0-9")
    # std exceptions
    add(nrx(r"^_ZSt(20__throw_length_error|20__throw_out_of_range|24__throw_out_of_range_fmt|19__throw_logic_error|17__throw_bad_alloc|28__throw_bad_array_new_length)"),
        lambda e, s, a, i: Throw({"l": "_ZTISt12length_error", "o": "_ZTISt12out_of_range"}.get("l" if b"length" and "length_error" in i["f"][1] else "o" if "out_of_range" in i["f"][1] else "x", "_ZTISt9exception")))
    add(nrx(r"^strlen$"), strlen_)
    # ---- fmt: error messages only, produces an arbitrary string
    def fmtstr(e, s, a, i):
        n = fresh("fmtlen", 64); s.assume(z3.ULT(n, BV(1 << 20, 64)))
        str_init(s, a[0], n)
    add(rx(r"fmt::v\d+::(format|vformat)[<(\[]|::fmt::v\d+::(format|vformat)|std::__cxx11::basic_string<char.*fmt::v\d+::format"), fmtstr, "fmt::format returns some string")
    # ---- OutputStream
    def ows(e, s, a, i):
        k = ("out", a[0].rid)
        if k not in s.ghost: raise Unsupported("write to a stream that is not modelled")
        if not e.check_access(s, a[1], a[2], "stream write source", i): raise PathEnd("bad")
        if s.wlog is not None: pass
        s.ghost[k] = simp(append_range(e, s, s.ghost[k], a[1], a[2]))
    add(rx(r"^mm::OutputStream::Write\(char const\*, unsigned long\)"), ows, "OutputStream::Write(buf,n) appends n bytes to the stream or throws")
    def owc(e, s, a, i):
        k = ("out", a[0].rid)
        if k not in s.ghost: raise Unsupported("write to a stream that is not modelled")
        s.ghost[k] = snoc(s.ghost[k], a[1])
    add(rx(r"^mm::OutputStream::Write\(char\)"), owc, "OutputStream::Write(c) appends one byte to the stream or throws")
    def owsv(e, s, a, i):
        k = ("out", a[0].rid)
        if k not in s.ghost: raise Unsupported("write to a stream that is not modelled")
        # string_view passed as {len, ptr}
        if len(a) == 3: n, p = a[1], a[2]
        else: n, p = e.load(s, a[1], 8), e.load(s, padd(a[1], 8), 8, "ptr")
        s.ghost[k] = simp(append_range(e, s, s.ghost[k], p, n))
    add(rx(r"^mm::OutputStream::Write\(std::basic_string_view"), owsv, "OutputStream::Write(view) appends the view to the stream or throws")
    add(rx(r"^mm::OutputStream::Flush\("), nop)
    # ---- input devices
    D = "input devices deliver their bytes in order (proved for the in-memory devices under D01)"
    def indev(s, p):
        if ("inpos", p.rid) not in s.ghost: raise Unsupported("read from a device that is not modelled")
        return s.ghost[("inpos", p.rid)], s.ghost[("inlen", p.rid)], s.ghost[("indata", p.rid)]
    def in_read(adv):
        def h(e, s, a, i):
            pos, n, arr = indev(s, a[0]); more = z3.ULT(pos, n)
            s.wr(a[1], 1, simp(z3.If(more, z3.Select(arr, pos), BV(0, 8))))
            if adv: s.ghost[("inpos", a[0].rid)] = simp(z3.If(more, pos + 1, pos))
            return simp(more)
        return h
    add(rx(r"^mm::InputStreamDevice::Peek\(char&\)"), in_read(False), D)
    add(rx(r"^mm::InputStream::Read\(char&\)"), in_read(True), D)
    def in_char(e, s, a, i):
        pos, n, arr = indev(s, a[0])
        more = z3.ULT(pos, n)
        if e.feasible(s, z3.Not(more)):
            if not s.dry: e.prove("%s/safety/ReadChar at the end of the data" % e.where(s), s, more)
        s.assume(more); s.ghost[("inpos", a[0].rid)] = simp(pos + 1)
        return simp(z3.Select(arr, pos))
    add(rx(r"^mm::InputStream::ReadChar\(\)"), in_char, D)
    # ---- std::string
    T = "libstdc++ std::string behaves as specified by the C++ standard"
    S = lambda pat: rx(SS + pat)
    def s_default(e, s, a, i): str_init(s, a[0])
    add(S(r"basic_string\(\)"), s_default, T)
    def s_cstr(e, s, a, i):
        p = a[1]
        n = strlen_(e, s, [p], i)
        str_init(s, a[0])
        str_append(e, s, a[0], p, n)
    add(S(r"basic_string<std::allocator<char> ?>\(char const\*, std::allocator<char> const&\)"), s_cstr, T)
    add(S(r"basic_string\(char const\*, std::allocator<char> const&\)"), s_cstr, T)
    def s_ptrn(e, s, a, i):
        if not e.check_access(s, a[1], a[2], "string source", i): raise PathEnd("bad")
        str_init(s, a[0]); str_append(e, s, a[0], a[1], a[2])
    add(S(r"basic_string\(char const\*, unsigned long, std::allocator<char> const&\)"), s_ptrn, T)
    def s_copy(e, s, a, i):
        str_init(s, a[0]); n = str_len(s, a[1])
        str_append(e, s, a[0], str_buf(s, a[1]), n); s.ghost[("strseq",) + okey(a[0])] = str_seq(s, a[1])
    add(S(r"basic_string\(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?> const&\)"), s_copy, T)
    def s_move(e, s, a, i):
        k0, k1 = okey(a[0]), okey(a[1])
        for f in ("strlen", "strbuf", "strseq"): s.ghost[(f,) + k0] = s.ghost[(f,) + k1]
        b = s.mem[s.ghost[("strbuf",) + k0]].clone(); b.owner = k0; s.mem[b.rid] = b
        str_init(s, a[1])
    add(S(r"basic_string\(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>&&\)"), s_move, T)
    def s_view(e, s, a, i):
        # (this, string_view const&, alloc)
        n, p = e.load(s, a[1], 8), e.load(s, padd(a[1], 8), 8, "ptr")
        str_init(s, a[0]); str_append(e, s, a[0], p, n)
    add(S(r"basic_string<std::basic_string_view<char, std::char_traits<char> ?>, void>\("), s_view, T)
    def s_fill(e, s, a, i):
        str_init(s, a[0]); s_resize_(e, s, a[0], a[1], a[2])
    add(S(r"basic_string<std::allocator<char> ?>\(unsigned long, char"), s_fill, T)
    add(S(r"basic_string\(unsigned long, char"), s_fill, T)
    add(S(r"~basic_string\("), nop)
    def s_push(e, s, a, i): str_push(e, s, a[0], a[1])
    add(S(r"push_back\(char\)"), s_push, T)
    add(S(r"(data|c_str)\(\)"), lambda e, s, a, i: str_buf(s, a[0]), T)
    add(S(r"(size|length)\(\)"), lambda e, s, a, i: str_len(s, a[0]), T)
    add(S(r"empty\(\)"), lambda e, s, a, i: simp(str_len(s, a[0]) == 0), T)
    def s_at(e, s, a, i):
        return padd(str_buf(s, a[0]), a[1])
    add(S(r"operator\[\]\(unsigned long\)"), s_at, T)
    def s_front(e, s, a, i): return str_buf(s, a[0])
    add(S(r"front\(\)"), s_front, T)
    add(S(r"back\(\)"), lambda e, s, a, i: padd(str_buf(s, a[0]), simp(str_len(s, a[0]) - 1)), T)
    def s_begin(e, s, a, i): return str_buf(s, a[0])
    add(S(r"c?begin\(\)"), s_begin, T)
    add(S(r"c?end\(\)"), lambda e, s, a, i: padd(str_buf(s, a[0]), str_len(s, a[0])), T)
    def s_clear(e, s, a, i): str_clear(s, a[0])
    add(S(r"clear\(\)"), s_clear, T)
    add(S(r"(reserve|shrink_to_fit)\("), nop, T)
    def s_resize_(e, s, p, n, c):
        old = str_len(s, p); b = str_buf(s, p)
        if isc(old) and isc(n) and cval(n) <= 4096:
            for j in range(cval(old), cval(n)): e.store(s, Ptr(b.rid, j), 1, c, check=False)
        else:
            r = e.flatten(s, b); i = z3.BitVec("i!rs", 64); o = r.arr
            r = s.wregion(b); r.arr = z3.Lambda([i], z3.If(z3.ULT(i, old), z3.Select(o, i), c))
            if s.wlog is not None: s.wlog.add((b.rid, "*", 0))
        str_setlen(s, p, n); s.ghost[("strseq",) + okey(p)] = fresh("seq", Bytes)
    add(S(r"resize\(unsigned long\)"), lambda e, s, a, i: s_resize_(e, s, a[0], a[1], BV(0, 8)), T)
    add(S(r"resize\(unsigned long, char\)"), lambda e, s, a, i: s_resize_(e, s, a[0], a[1], a[2]), T)
    def s_app_pn(e, s, a, i):
        if not e.check_access(s, a[1], a[2], "append source", i): raise PathEnd("bad")
        str_append(e, s, a[0], a[1], a[2]); return a[0]
    add(S(r"append\(char const\*, unsigned long\)"), s_app_pn, T)
    def s_app_c(e, s, a, i):
        n = strlen_(e, s, [a[1]], i); str_append(e, s, a[0], a[1], n); return a[0]
    add(S(r"(append|operator\+=)\(char const\*\)"), s_app_c, T)
    def s_app_s(e, s, a, i):
        str_append(e, s, a[0], str_buf(s, a[1]), str_len(s, a[1])); return a[0]
    add(S(r"(append|operator\+=)\(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?> const&\)"), s_app_s, T)
    def s_pluseq(e, s, a, i): str_push(e, s, a[0], a[1]); return a[0]
    add(S(r"operator\+=\(char\)"), s_pluseq, T)
    def s_appfill(e, s, a, i):
        n = simp(a[1])
        if not isc(n) or cval(n) > 64: raise Unsupported("append(n,c) with symbolic n")
        for _ in range(cval(n)): str_push(e, s, a[0], a[2])
        return a[0]
    add(S(r"append\(unsigned long, char\)"), s_appfill, T)
    def s_assign_s(e, s, a, i):
        k0, k1 = okey(a[0]), okey(a[1])
        n = str_len(s, a[1]); sq = str_seq(s, a[1])
        str_init(s, a[0]); str_append(e, s, a[0], str_buf(s, a[1]), n); s.ghost[("strseq",) + k0] = sq
        return a[0]
    add(S(r"(assign|operator=)\(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?> const&\)"), s_assign_s, T)
    def s_assign_m(e, s, a, i): s_move(e, s, a, i); return a[0]
    add(S(r"(assign|operator=)\(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>&&\)"), s_assign_m, T)
    def s_assign_pn(e, s, a, i):
        str_clear(s, a[0]); str_append(e, s, a[0], a[1], a[2]); return a[0]
    add(S(r"assign\(char const\*, unsigned long\)"), s_assign_pn, T)
    def s_assign_v(e, s, a, i):
        n, p = e.load(s, a[1], 8), e.load(s, padd(a[1], 8), 8, "ptr")
        str_clear(s, a[0]); str_append(e, s, a[0], p, n); return a[0]
    add(S(r"(assign|operator=)<std::basic_string_view<char"), s_assign_v, T)
    add(S(r"operator std::basic_string_view<char, std::char_traits<char> ?>\(\)"), lambda e, s, a, i: Agg([str_len(s, a[0]), str_buf(s, a[0])]), T)
    # string_view comparison and search
    V = "libstdc++ std::string_view comparison behaves as specified by the C++ standard"
    def sveq(neg):
        def h(e, s, a, i):
            if len(a) == 4: (n1, p1), (n2, p2) = (a[0], a[1]), (a[2], a[3])
            else: raise Unsupported("string_view comparison")
            n1, n2 = simp(n1), simp(n2)
            if isc(n1) and not isc(n2): (n1, p1), (n2, p2) = (n2, p2), (n1, p1)
            if not isc(n2): raise Unsupported("comparison of views of symbolic length")
            n = cval(n2)
            if isc(n1) and cval(n1) != n: r = z3.BoolVal(False)
            else: r = simp(z3.And(n1 == n2, *[e.load(s, padd(p1, j), 1, check=False) == e.load(s, padd(p2, j), 1, check=False) for j in range(n)]))
            return simp(z3.Not(r)) if neg else r
        return h
    add(rx(r"^bool std::operator==<char, std::char_traits<char> ?>\(std::basic_string_view<char, std::char_traits<char> ?>, std::"), sveq(False), V)
    add(rx(r"^bool std::operator!=<char, std::char_traits<char> ?>\(std::basic_string_view<char, std::char_traits<char> ?>, std::"), sveq(True), V)
    def s_find(e, s, a, i):
        """position of the first occurrence of a character from a position on, or npos"""
        n = str_len(s, a[0]); b = str_buf(s, a[0]); r = fresh("find", 64); arr = e.flatten(s, b).arr; c = a[1]; frm = a[2]
        NP = BV(-1, 64); q = fresh("fi", 64)
        s.assume(z3.Or(r == NP, z3.And(z3.ULT(r, n), z3.UGE(r, frm), z3.Select(arr, r) == c)))
        s.assume(z3.ForAll([q], z3.Implies(z3.And(z3.ULE(frm, q), z3.ULT(q, n), z3.ULT(q, r)), z3.Select(arr, q) != c), patterns=[z3.Select(arr, q)]))
        return r
    add(S(r"find\(char, unsigned long\)"), s_find, T)
    add(rx(r"^std::allocator<char>::(allocator|~allocator)\(|^std::__new_allocator<char>::(__new_allocator|~__new_allocator)\("), nop)
    add(rx(r"^std::uncaught_exceptions"), lambda e, s, a, i: BV(0, 32))

def strlen_(e, s, a, i):
    p = a[0]
    if not isc(p.off): raise Unsupported("strlen of symbolic pointer")
    r = s.region(p)
    for n in range(4096):
        b = e.load(s, padd(p, n), 1, check=False)
        if isc(b):
            if cval(b) == 0: return BV(n, 64)
        else: raise Unsupported("strlen of symbolic text")
    raise Unsupported("strlen")
