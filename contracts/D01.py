"""D01 in-memory devices. The real constructors set up the object, every operation is called through the public functions of
InputStream, OutputStream, InputStreamDevice and StreamDeviceBase, and dispatched through the vtables of the compiled classes."""
from engine.api import *
from contracts.tokcommon import enum_val
TUS = ["base/PdfStreamDevice.cpp", "base/PdfStreamDeviceBase.cpp", "base/PdfInputStream.cpp", "base/PdfOutputStream.cpp", "base/PdfInputDevice.cpp", "base/PdfOutputDevice.cpp", "@drv/D01.cpp"]
LEVEL = "proof"
BOUNDED_NOTE = "native: random histories of writes, reads, peeks, seeks and copies on span, string, vector and buffer devices with every access, against a reference, under AddressSanitizer; every seek offset and direction around the limits"
TRUSTED = ["the caller's buffers are valid for the sizes given and less than 2^62 bytes", "std::string and std::vector<char>: size, data and resize as in the C++ standard",
           "the container of a container device is changed only through the device while the device is in use", "file and std::iostream devices are thin wrappers over the C++ streams and not covered"]
UNITS, BOUNDED, proof, bounded = registry()
ERR = "mm::PdfErrorCode"
LIM = BV(1 << 62, 64)
SPAN = "mm::SpanStreamDevice"
STR = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
CONT = {"string device": STR, "vector device": "std::vector<char, std::allocator<char>>", "buffer device": "mm::charbuff_t<void>"}
KINDS = ["span device"] + list(CONT)
def norm(s): return s.replace(" ", "")
def cls(kind): return SPAN if kind == "span device" else "mm::ContainerStreamDevice<%s>" % CONT[kind]
def by_dem(u, dem, mangled=None):
    r = [k for k, f in u.m.fns.items() if not f["decl"] and norm(f["dem"]) == norm(dem) and (mangled is None or mangled in k)]
    if len(r) != 1: raise Unsupported("%s: %d definitions" % (dem, len(r)))
    return r[0]
def ctor(u, c, args):   # the complete object constructor
    n = c.split("::")[-1] if "<" not in c else "ContainerStreamDevice"
    return by_dem(u, "%s::%s(%s)" % (c, n, args), "C1") if any("C1" in k for k, f in u.m.fns.items() if norm(f["dem"]) == norm("%s::%s(%s)" % (c, n, args))) else by_dem(u, "%s::%s(%s)" % (c, n, args))
def vec(e):
    V = r"^std::vector<char, std::allocator<char> ?>::"; T = "std::vector<char> behaves as specified by the C++ standard"
    def add(p, h): e.intercepts.insert(0, (rx(V + p), h))
    add(r"size\(\)", lambda en, s, a, i: str_len(s, a[0])); add(r"data\(\)", lambda en, s, a, i: str_buf(s, a[0])); add(r"empty\(\)", lambda en, s, a, i: simp(str_len(s, a[0]) == 0))
    def resize(en, s, a, i):
        for m, h in en.intercepts:
            if m("", STR + "::resize(unsigned long)"): return h(en, s, a, i)
    add(r"resize\(unsigned long\)", resize); e.assumed.add(T)
class Dev:
    """a device with arbitrary content, position and access (within the invariant)"""
    def __init__(self, u, kind, access=3, tag=""):
        self.u, self.kind, self.c = u, kind, cls(kind)
        self.e = e = u.engine(""); self.st = st = State(e); vec(e)
        self.L, self.P = z3.BitVec("length", 64), z3.BitVec("position", 64)
        st.assume(z3.And(z3.ULE(self.P, self.L), z3.ULT(self.L, LIM)))
        self.this = st.new_region("device", u.m.sizeof(self.c))
        if kind == "span device":
            self.buf, self.D = st.buffer("data", self.L)
            ps = e.run(ctor(u, SPAN, "char*, unsigned long, mm::DeviceAccess"), [self.this, self.buf, self.L, BV(access, 32)], st)
        else:
            self.co = st.new_region("container", 64); str_init(st, self.co, self.L); b = str_buf(st, self.co); self.D = e.flatten(st, b).arr
            ps = e.run(ctor(u, self.c, CONT[kind] + "&, mm::DeviceAccess, bool"), [self.this, self.co, BV(access, 32), z3.BoolVal(False)], st)
        if len(ps) != 1 or ps[0].kind != "ret": raise Unsupported("constructor with %d outcomes" % len(ps))
        self.st = st = ps[0]; st.kind = None
        vp = [o for o, (sz, v) in sorted(st.mem[self.this.rid].cells.items()) if isinstance(v, Ptr) and v.rid in e.globals_rid.values()]
        self.inp, self.out, self.base = (padd(self.this, vp[0]), padd(self.this, vp[1]), padd(self.this, vp[-1]))
        st.setfld(self.this, self.c, "m_Position", self.P)
    def pos(self, s): return s.fld(self.this, self.c, "m_Position")
    def len(self, s): return s.fld(self.this, self.c, "m_Length") if self.kind == "span device" else str_len(s, self.co)
    def data(self, s): return self.e.flatten(s, self.buf if self.kind == "span device" else str_buf(s, self.co)).arr
    def run(self, dem, args, loops=None, what=None):
        F = by_dem(self.u, dem); self.what = what or "%s: %s" % (self.kind, short(dem).split("::")[-1] + dem[dem.index("("):].replace("std::char_traits<char> ", "").replace(", std::char_traits<char>", ""))
        ps = self.e.run(F, args, self.st, loops or []); finals(self.e, ps, self.what); return ps
    def ob(self, p, name, t): self.e.prove("%s/post/%s" % (self.what, name), p, t)
    def same(self, p, i):
        """nothing about the content changed"""
        return z3.And(self.len(p) == self.L, z3.Implies(z3.ULT(i, self.L), z3.Select(self.data(p), i) == z3.Select(self.D, i)))
    def untouched(self, p, i): return z3.And(self.same(p, i), self.pos(p) == self.P)
    def code(self, p, *names):
        c = p.exc.get("code"); return z3.Or(*[c == BV(enum_val(self.u, ERR, n), c.size()) for n in names]) if c is not None else z3.BoolVal(False)
def passes(d, n, dst):
    """reading in one or more passes: what has been read so far is what the position says"""
    def inv(h):
        c = d.pos(h.st) - d.P; q = fresh("q", 64); cur = d.e.flatten(h.st, dst).arr
        return [("as much as asked for at most", z3.And(z3.ULE(c, n), z3.ULE(c, d.L - d.P))),
                ("read so far", z3.ForAll([q], z3.Implies(z3.ULT(q, c), z3.Select(cur, q) == z3.Select(d.D, d.P + q)), patterns=[z3.Select(cur, q)])),
                ("content", d.len(h.st) == d.L)]
    def auto(h): c = d.pos(h.st) - d.P; return BV(0, 8), [BV(0, 8)], [c, n - c]
    return LoopSpec(inv=inv, auto=auto, name="passes")
def each(kinds=KINDS, access=(1, 2, 3)):
    for k in kinds:
        for a in access: yield k, a
def small(st, *vs):
    for v in vs: st.assume(z3.ULT(v, LIM))

@proof("read bytes")
def rd(u):
    i = z3.BitVec("i", 64)
    for kind, acc in each():
        for eofv in (False, True):
            d = Dev(u, kind, acc); st = d.st; n = z3.BitVec("size", 64); small(st, n); dst, _ = st.buffer("destination", n)
            eof = st.new_region("eof", 1)
            ps = d.run("mm::InputStream::Read(char*, unsigned long, bool&)" if eofv else "mm::InputStream::Read(char*, unsigned long)", [d.inp, dst, n] + ([eof] if eofv else []), [passes(d, n, dst)])
            rdable = bool(acc & 1); full = z3.ULE(n, d.L - d.P); cnt = z3.If(full, n, d.L - d.P)
            for p in ps:
                if p.kind == "throw":
                    d.ob(p, "raises only without read access or when the data ends first", z3.Or(z3.And(z3.BoolVal(not rdable), d.code(p, "InternalLogic"), d.pos(p) == d.P), z3.And(z3.BoolVal(rdable and not eofv), z3.Not(full), d.code(p, "UnexpectedEOF"))))
                    d.ob(p, "content unchanged, position within it", z3.And(d.same(p, i), z3.ULE(d.pos(p), d.L))); continue
                d.ob(p, "needs read access", z3.BoolVal(rdable))
                d.ob(p, "the bytes at the position are delivered", z3.Implies(z3.ULT(i, cnt), z3.Select(d.e.flatten(p, dst).arr, i) == z3.Select(d.D, d.P + i)))
                d.ob(p, "position advances by the bytes delivered, content unchanged", z3.And(d.pos(p) == d.P + cnt, d.same(p, i)))
                if eofv:
                    ev = p.rd(eof, 1) != 0
                    d.ob(p, "short only at the end, which is reported", z3.And(p.ret == cnt, z3.Implies(z3.ULT(cnt, n), ev), z3.Implies(ev, d.P + cnt == d.L)))
                else: d.ob(p, "all bytes asked for are delivered", full)
@proof("read characters")
def rc(u):
    i = z3.BitVec("i", 64)
    for kind, acc in each():
        for op in ("mm::InputStream::Read(char&)", "mm::InputStream::ReadChar()", "mm::InputStreamDevice::Peek(char&) const"):
            d = Dev(u, kind, acc); st = d.st; ch = st.new_region("ch", 1); byref = "char&" in op; more = z3.ULT(d.P, d.L); adv = 0 if "Peek" in op else 1
            for p in d.run(op, [d.inp] + ([ch] if byref else [])):
                if p.kind == "throw": d.ob(p, "raises only without read access or at the end, nothing changes", z3.And(d.untouched(p, i), z3.Or(z3.And(z3.BoolVal(not acc & 1), d.code(p, "InternalLogic")), z3.And(z3.BoolVal(not byref), z3.Not(more))))); continue
                d.ob(p, "needs read access", z3.BoolVal(bool(acc & 1)))
                got = p.rd(ch, 1) if byref else p.ret
                d.ob(p, "delivers the byte at the position, if there is one", z3.And(z3.Implies(more, got == z3.Select(d.D, d.P)), tobool(p.ret) == more if byref else more))
                d.ob(p, "position advances by the byte consumed, content unchanged", z3.And(d.pos(p) == z3.If(more, d.P + adv, d.P), d.same(p, i)))
@proof("write")
def wr(u):
    i = z3.BitVec("i", 64)
    for kind, acc in each():
        for op in ("mm::OutputStream::Write(char)", "mm::OutputStream::Write(char const*, unsigned long)", "mm::OutputStream::Write(std::basic_string_view<char, std::char_traits<char>> const&)"):
            d = Dev(u, kind, acc); st = d.st
            if "(char)" in op: n = BV(1, 64); c = z3.BitVec("ch", 8); args = [d.out, c]; src = lambda j: c
            else:
                n = z3.BitVec("size", 64); small(st, n); sp, sa = st.buffer("source", n); src = lambda j: z3.Select(sa, j)
                if "view" in op: v = st.new_region("view", 16); st.wr(v, 8, n); st.wr(padd(v, 8), 8, sp); args = [d.out, v]
                else: args = [d.out, sp, n]
            fits = z3.ULE(n, d.L - d.P) if kind == "span device" else z3.BoolVal(True)
            for p in d.run(op, args):
                if p.kind == "throw":
                    d.ob(p, "raises only without write access or beyond the end of a span, nothing changes", z3.And(d.untouched(p, i), n != 0, z3.Or(z3.And(z3.BoolVal(not acc & 2), d.code(p, "InternalLogic")), z3.And(z3.Not(fits), d.code(p, "ValueOutOfRange"))))); continue
                d.ob(p, "needs write access and room", z3.Or(n == 0, z3.And(z3.BoolVal(bool(acc & 2)), fits)))
                L2 = z3.If(z3.UGT(d.P + n, d.L), d.P + n, d.L)
                d.ob(p, "length and position", z3.And(d.len(p) == L2, d.pos(p) == d.P + n))
                d.ob(p, "the bytes are stored at the position, all others are kept", z3.Implies(z3.ULT(i, L2), z3.Select(d.data(p), i) == z3.If(z3.And(z3.UGE(i, d.P), z3.ULT(i, d.P + n)), src(i - d.P), z3.Select(d.D, i))))
@proof("seek")
def sk(u):
    i = z3.BitVec("i", 64)
    for kind, acc in each(access=(1, 2)):
        for op in ("mm::StreamDeviceBase::Seek(unsigned long)", "mm::StreamDeviceBase::Seek(long, mm::SeekDirection)"):
            d = Dev(u, kind, acc); st = d.st; off = z3.BitVec("offset", 64); two = "long," in op; dr = z3.BitVec("direction", 32)
            x = lambda v: z3.ZeroExt(3, v)
            E = {k: BV(enum_val(u, "mm::SeekDirection", k), 32) for k in ("Begin", "Current", "End")}
            if two: target = z3.If(dr == E["Begin"], BV(0, 67), z3.If(dr == E["Current"], x(d.P), x(d.L))) + z3.SignExt(3, off); valid = z3.Or(*[dr == v for v in E.values()])
            else: target = x(off); valid = z3.BoolVal(True)
            inside = z3.And(valid, target >= 0, target <= x(d.L))
            for p in d.run(op, [d.base, off] + ([dr] if two else [])):
                if p.kind == "throw": d.ob(p, "raises only outside of the content, nothing changes", z3.And(z3.Not(inside), d.untouched(p, i))); continue
                d.ob(p, "moves to the place asked for, which is within the content", z3.And(inside, x(d.pos(p)) == target, d.same(p, i)))
@proof("status")
def stat(u):
    i = z3.BitVec("i", 64)
    for kind, acc in each():
        c = cls(kind)
        for op, want in (("GetLength", lambda d: d.L), ("GetPosition", lambda d: d.P), ("Eof", lambda d: d.P == d.L), ("CanSeek", lambda d: z3.BoolVal(True))):
            d = Dev(u, kind, acc)
            for p in d.run("%s::%s() const" % (c, op), [d.this]):
                d.ob(p, "tells the state", (tobool(p.ret) if op in ("Eof", "CanSeek") else p.ret) == want(d) if p.kind == "ret" else z3.BoolVal(False)); d.ob(p, "nothing changes", d.untouched(p, i))
@proof("make")
def make(u):
    i = z3.BitVec("i", 64)
    def check(d, p, L, P, acc):
        d.ob(p, "starts at the right place", z3.And(d.pos(p) == P, d.len(p) == L)); d.ob(p, "access", z3.And(*[p.rd(padd(d.base, 8), 4) == acc]))
    for kind, c in CONT.items():
        for args, n in ((c + "&, mm::DeviceAccess, bool", 2), (c + " const&", 0), (c + "&", 1)):
            for ate in ((False, True) if n == 2 else (n == 1,)):
                d = Dev(u, kind); d.this = d.st.new_region("fresh", u.m.sizeof(d.c)); d.base = Ptr(d.this.rid, d.base.off); F = ctor(u, d.c, args); acc = BV([1, 3, 2][n], 32)
                d.what = "%s(%s)%s" % (kind, args.split(" const")[0].split("<")[0].split("&")[0] + args[len(c):], "" if n < 2 else ", at the end" if ate else ", at the start")
                ps = d.e.run(F, [d.this, d.co] + ([acc, z3.BoolVal(ate)] if n == 2 else []), d.st); finals(d.e, ps, d.what); nothrow(d.e, ps, d.what)
                for p in ps: check(d, p, d.L, d.L if ate else BV(0, 64), acc)
    kind = "span device"; SV = "std::basic_string_view<char, std::char_traits<char>>"
    for args, acc in (("char const*, unsigned long", 1), ("char*, unsigned long, mm::DeviceAccess", 2), (SV + " const&", 1), (STR + " const&", 1), (STR + "&, mm::DeviceAccess", 3), ("char const*", 1), ("tcb::span<char const, 18446744073709551615ul> const&", 1), ("tcb::span<char, 18446744073709551615ul> const&, mm::DeviceAccess", 2)):
        d = Dev(u, kind); st = d.st; d.this = st.new_region("fresh", u.m.sizeof(SPAN)); d.base = Ptr(d.this.rid, d.base.off); ptr = d.buf
        if args.startswith("char*") or args == "char const*, unsigned long": av = [d.buf, d.L]
        elif args == "char const*": av = [d.buf]; d.e.intercepts.insert(0, (rx(r"^std::char_traits<char>::length\("), lambda en, s, a, i: d.L)); d.e.assumed.add("char_traits::length is the length of the text")
        elif "view" in args: v = st.new_region("view", 16); st.wr(v, 8, d.L); st.wr(padd(v, 8), 8, d.buf); av = [v]
        elif "span" in args: v = st.new_region("span", 16); st.wr(v, 8, d.buf); st.wr(padd(v, 8), 8, d.L); av = [v]
        else: v = st.new_region("string", 32); str_init(st, v, d.L); av = [v]; ptr = str_buf(st, v)
        if "Access" in args: av.append(BV(acc, 32))
        d.what = "span device(%s)" % args.replace(STR, "std::string").replace(SV, "std::string_view"); F = ctor(u, SPAN, args)
        ps = d.e.run(F, [d.this] + av, st); finals(d.e, ps, d.what); nothrow(d.e, ps, d.what)
        for p in ps:
            check(d, p, d.L, BV(0, 64), acc); q = p.fld(d.this, SPAN, "m_buffer", "ptr") if False else p.rd(p.fptr(d.this, SPAN, "m_buffer"), 8, "ptr")
            d.ob(p, "works on the memory given", z3.And(z3.BoolVal(isinstance(q, Ptr) and q.rid == ptr.rid), q.off == ptr.off) if isinstance(q, Ptr) else z3.BoolVal(False))
for kind, acc in each(access=(3,)):    # what may be written does not matter here (unit "read bytes")
    for lim in (False, True): proof("copy %s from a %s" % ("a given size" if lim else "all", kind))(lambda u, kind=kind, acc=acc, lim=lim: cp(u, kind, acc, lim))
def cp(u, kind, acc, lim):
    i = z3.BitVec("i", 64)
    d = Dev(u, kind, acc); st = d.st; out = new_stream(st); n = z3.BitVec("size", 64); small(st, n); W = ("next",); st.ghost[W] = d.P; end = z3.BitVec("end", 64); st.assume(end == d.P + n)
    # whatever is written must be the next bytes of the device
    def write(en, s, a, ins):
        if not en.check_access(s, a[1], a[2], "stream write source", ins): raise PathEnd("bad")
        if not isinstance(a[0], Ptr) or a[0].rid != out.rid: raise Unsupported("write to another stream")
        w = s.ghost[W]; arr = en.flatten(s, a[1]).arr
        if not s.dry: en.prove("%s/pre of Write/the bytes are the next ones of the device" % d.what, s, z3.Implies(z3.ULT(i, a[2]), z3.And(z3.ULT(w + i, d.L), z3.Select(arr, a[1].off + i) == z3.Select(d.D, w + i))))
        s.ghost[W] = simp(w + a[2])
    d.e.intercepts.insert(0, (rx(r"^mm::OutputStream::Write\(char const\*, unsigned long\)"), write)); d.e.assumed.add("OutputStream::Write(buf,n) appends n bytes to the stream or throws")
    d.what = "%s: CopyTo%s" % (kind, "(stream, size)" if lim else "(stream)")
    def inv(h):
        w = h.st.ghost[W]; return [("position", z3.And(d.pos(h.st) == w, z3.ULE(d.P, w), z3.ULE(w, d.L), z3.ULE(w, end) if lim else z3.BoolVal(True), d.len(h.st) == d.L))]
    def auto(h): w = h.st.ghost[W]; return BV(0, 8), [BV(0, 8)], [w - d.P, end - w]
    ps = d.run("mm::InputStream::CopyTo(mm::OutputStream&%s)" % (", unsigned long" if lim else ""), [d.inp, out] + ([n] if lim else []), [LoopSpec(inv=inv, auto=auto, name="blocks")], d.what)
    nothrow(d.e, ps, d.what)
    for p in ps:
        want = z3.If(z3.ULT(end, d.L), end, d.L) if lim else d.L    # lengths are small: end = position + size does not wrap
        d.ob(p, "everything asked for is copied", p.ghost[W] == want); d.ob(p, "the position is behind what was copied", d.pos(p) == p.ghost[W]); d.ob(p, "the data stays as it is", d.same(p, i))
@proof("null device")
def null(u):
    ND = "mm::NullStreamDevice"
    for op in ("mm::InputStream::Read(char*, unsigned long)", "mm::InputStream::Read(char*, unsigned long, bool&)", "mm::InputStream::Read(char&)", "mm::InputStream::ReadChar()", "mm::InputStreamDevice::Peek(char&) const", "mm::OutputStream::Write(char)", "mm::OutputStream::Write(char const*, unsigned long)"):
        e = u.engine(""); st = State(e); L, P, n = z3.BitVecs("length position size", 64); small(st, L, n); st.assume(P == L)   # it cannot be moved back: always at its end
        this = st.new_region("device", u.m.sizeof(ND))
        ps = e.run(ctor(u, ND, ""), [this], st)
        if len(ps) != 1 or ps[0].kind != "ret": raise Unsupported("constructor")
        st = ps[0]; st.kind = None; e.prove("null device/post/starts empty", st, z3.And(st.fld(this, ND, "m_Length") == 0, st.fld(this, ND, "m_Position") == 0))
        vp = [o for o, (sz, v) in sorted(st.mem[this.rid].cells.items()) if isinstance(v, Ptr) and v.rid in e.globals_rid.values()]
        st.setfld(this, ND, "m_Length", L); st.setfld(this, ND, "m_Position", P); what = "null device: " + short(op).split("::")[-1] + op[op.index("("):]
        pos = lambda s: s.fld(this, ND, "m_Position"); ch = st.new_region("ch", 1); buf, _ = st.buffer("buffer", n); eof = st.new_region("eof", 1)
        write = "Output" in op; byref = "char&" in op; one = byref or "ReadChar" in op or "(char)" in op
        args = [padd(this, vp[1] if write else vp[0])] + ([ch] if byref else [] if "ReadChar" in op else [z3.BitVec("c", 8)] if one else [buf, n] + ([eof] if "bool&" in op else []))
        def inv(h): return [("position", z3.And(z3.UGE(pos(h.st), P), z3.ULE(pos(h.st) - P, n), z3.ULE(pos(h.st), L), h.st.fld(this, ND, "m_Length") == L))]
        spec = LoopSpec(inv=inv, auto=lambda h: (BV(0, 8), [BV(0, 8)], [pos(h.st) - P]), name="passes")
        ps = e.run(by_dem(u, op), args, st, [] if write or one else [spec]); finals(e, ps, what); full = z3.ULE(BV(1, 64) if one else n, L - P); cnt = z3.If(full, BV(1, 64) if one else n, L - P)
        for p in ps:
            e.prove(what + "/post/stays at its end", p, pos(p) == p.fld(this, ND, "m_Length"))
            if p.kind == "throw": e.prove(what + "/post/raises only at the end", p, z3.And(z3.Not(full), z3.BoolVal(not write and not byref and "bool&" not in op), z3.ULE(pos(p), L))); continue
            if write: m = BV(1, 64) if one else n; e.prove(what + "/post/length and position", p, z3.And(pos(p) == P + m, p.fld(this, ND, "m_Length") == z3.If(z3.UGT(P + m, L), P + m, L))); continue
            e.prove(what + "/post/length and position", p, z3.And(p.fld(this, ND, "m_Length") == L, pos(p) == (P if "Peek" in op else P + cnt)))
            if byref: e.prove(what + "/post/tells whether there is a byte", p, tobool(p.ret) == full)
            elif "bool&" in op: e.prove(what + "/post/short only at the end", p, z3.And(p.ret == cnt, z3.Implies(z3.Not(full), p.rd(eof, 1) != 0)))
            elif not one: e.prove(what + "/post/delivers what was asked for", p, full)
