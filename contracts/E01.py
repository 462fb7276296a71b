"""E01 encryption and decryption. RC4 streams against the cipher's definition; OpenSSL by contracts: CBC decryption undoes encryption, RC4 is an exclusive or with a key stream."""
from engine.api import *
from contracts.tokcommon import enum_val
from contracts.common import *
TUS = ["base/PdfEncrypt.cpp"]
LEVEL = "proof"
BOUNDED_NOTE = "native: data of every length around the block size and seeded lengths up to 20000, every algorithm and key length, object numbers and generations at their boundaries, buffers and streams in pieces of every size, against an independent computation; data that was not encrypted properly"
TRUSTED = ["OpenSSL: AES-CBC decryption undoes encryption with the same key and initial vector, block by block, and checks the padding; RC4 is an exclusive or with a key stream", "std::string as in the C++ standard", "data is shorter than 2^31 - 64 bytes", "devices deliver their bytes in order (D01)"]
UNITS, BOUNDED, proof, bounded = registry()
RS, EC = "mm::PdfRC4Stream", "mm::PdfEncrypt"
B64, B8, B32 = z3.BitVecSort(64), z3.BitVecSort(8), z3.BitVecSort(32)
ARR8 = z3.ArraySort(B64, B8)
z8 = lambda b: z3.ZeroExt(56, b)
# the cipher's definition: state table and index after i steps of the key schedule / of the output
KS, KJ = z3.Function("scheduled_table", B64, ARR8), z3.Function("scheduled_index", B64, B64)
PS, PJ = z3.Function("table", B64, ARR8), z3.Function("index", B64, B64)
def swap(S, i, j): return z3.Store(z3.Store(S, i, S[j]), j, S[i])
def sched_step(i, key, n):
    S, j = KS(i), KJ(i); j1 = simp((j + z8(S[i]) + z8(z3.Select(key, z3.URem(i, n)))) & 255)
    return [KJ(i + 1) == j1, KS(i + 1) == swap(S, i, j1)]
def out_step(n):
    """step n + 1 of the output: table, index"""
    a = simp((n + 1) & 255); S, j = PS(n), PJ(n); j1 = simp((j + z8(S[a])) & 255)
    return [PJ(n + 1) == j1, PS(n + 1) == swap(S, a, j1)]
def out_byte(n):
    a = simp((n + 1) & 255); S, j = PS(n + 1), PJ(n + 1); return z3.Select(S, (z8(S[a]) + z8(S[j])) & 255)
KEYB = z3.Function("keystream", B64, B8)
def sync(s, this, m, S):
    """the object's table is S"""
    o = m.field(RS, "m_rc4")[0]; q = fresh("q", 64)
    A = s.mem[this.rid]
    r = lambda x: s.eng.load(s, padd(this, simp(x + o)), 1, check=False)
    v = r(q)
    return z3.ForAll([q], z3.Implies(z3.ULT(q, 256), v == z3.Select(S, q)))
@proof("RC4 key schedule")
def schedule(u):
    """PdfRC4Stream: the table after construction is that of the RC4 key schedule of the key, for any key of 1 to 2^31 bytes; the output starts at its beginning"""
    F = u.m.find(RS + "::PdfRC4Stream"); f = u.m.fns[F]; e = u.engine(""); st = State(e); this = st.new_region("stream", u.m.sizeof(RS))
    n = z3.BitVec("keylen", 32); st.assume(z3.And(z3.UGE(n, 1), z3.ULT(n, 1 << 31))); N = z3.ZeroExt(32, n); key, K = st.buffer("key", N)
    def ident(s, k):
        q = fresh("q", 64); return z3.ForAll([q], z3.Implies(z3.ULT(q, k), s.eng.load(s, padd(this, simp(q + u.m.field(RS, "m_rc4")[0])), 1, check=False) == z3.Extract(7, 0, q)))
    rest = lambda s: z3.And(s.fld(this, RS, "m_a") == 0, s.fld(this, RS, "m_b") == 0)
    def fill(h): return [("identity", z3.And(z3.ULE(h.k, 256), ident(h.st, h.k))), ("at the beginning", rest(h.st))]
    def mix(h): return [("table", z3.And(z3.ULE(h.k, 256), sync(h.st, this, u.m, KS(h.k)))), ("at the beginning", rest(h.st))]
    def ffacts(h): q = fresh("q", 64); return [z3.ForAll([q], z3.Implies(z3.ULT(q, 256), z3.Select(KS(BV(0, 64)), q) == z3.Extract(7, 0, q))), KJ(BV(0, 64)) == 0]
    auto = lambda h: (BV(0, 64), [0], [KJ(h.k)])
    usekey = lambda fn, L: any(i["op"] == "urem" for b in L["b"] for i in fn["blocks"][b])
    ps = e.run(F, [this, key, n], st, [LoopSpec(inv=mix, facts=lambda h: ffacts(h) + sched_step(h.k, K, N), name="key schedule", match=usekey, auto=auto), LoopSpec(inv=fill, name="identity", match=lambda fn, L: not usekey(fn, L))])
    finals(e, ps, "PdfRC4Stream"); nothrow(e, ps, "PdfRC4Stream")
    for q in ps:
        if q.kind != "ret": continue
        e.prove("PdfRC4Stream/post/table of the key schedule", q, sync(q, this, u.m, KS(BV(256, 64)))); e.prove("PdfRC4Stream/post/at the beginning", q, rest(q))

class Keystream:
    """the object's state is the one after n steps"""
    def __init__(self, u, s, this, name="done"):
        self.u = u; self.this = this; self.n = z3.BitVec(name, 64); s.assume(z3.ULT(self.n, BV(1 << 62, 64)))
        for t in self.at(s, self.n): s.assume(t)
    def at(self, s, n): return [sync(s, self.this, self.u.m, PS(n)), s.fld(self.this, RS, "m_a") == z3.Extract(31, 0, n & 255), z3.And(s.fld(self.this, RS, "m_b") == z3.Extract(31, 0, PJ(n)), z3.ULT(PJ(n), 256))]
@proof("RC4 output")
def output(u):
    """PdfRC4Stream::Encrypt: every byte is combined with the next byte of the key stream, whatever the cut into blocks: after blocks of total length n the state is the one after n steps"""
    F = u.m.find(RS + "::Encrypt"); e = u.engine(""); st = State(e); this = st.new_region("stream", u.m.sizeof(RS)); G = Keystream(u, st, this); d = G.n
    n = z3.BitVec("len", 64); st.assume(z3.ULT(n, BV(1 << 40, 64))); buf, B = st.buffer("buffer", n)
    w = z3.BitVec("watched byte", 64); st.assume(z3.ULT(w, n))
    def done(s, k): return s.eng.load(s, padd(buf, w), 1, check=False) == z3.If(z3.ULT(w, k), z3.Select(B, w) ^ KEYB(simp(d + w)), z3.Select(B, w))
    def hints(h):
        x = simp(d + h.k); a = simp((x + 1) & 255); S = PS(x); T = lambda i: h.st.eng.load(h.st, padd(this, simp(i + u.m.field(RS, "m_rc4")[0])), 1, check=False); j = simp((PJ(x) + z8(S[a])) & 255); s = simp((z8(S[a]) + z8(S[j])) & 255)
        return [T(i) == S[i] for i in (a, j, s)]
    def inv(h): return [("bytes so far", z3.And(z3.ULE(h.k, n), done(h.st, h.k)))] + [("state after as many steps", t) for t in G.at(h.st, simp(d + h.k))]
    def facts(h): x = simp(d + h.k); return out_step(x) + [KEYB(x) == out_byte(x)]
    ps = e.run(F, [this, buf, n], st, [LoopSpec(inv=inv, facts=facts, hints=hints, name="bytes")]); finals(e, ps, "Encrypt"); nothrow(e, ps, "Encrypt")
    for q in ps:
        if q.kind != "ret": continue
        e.prove("Encrypt/post/bytes combined with the key stream", q, done(q, n)); e.prove("Encrypt/post/returns the length", q, q.ret == n)
        for t in G.at(q, simp(d + n)): e.prove("Encrypt/post/state after as many steps", q, t)

# ---- streams of RC4 data ------------------------------------------------------------------------------
RI, RO, AI = "mm::PdfRC4InputStream", "mm::PdfRC4OutputStream", "mm::PdfAESInputStream"
def use_rc4(e, obj, off, log=None):
    """contract of PdfRC4Stream::Encrypt (proved above)"""
    def enc(en, s, a, i):
        d = s.ghost[("rc4done",)]; n = simp(a[2])
        if not s.dry: en.prove("Encrypt/pre/the stream of this object", s, z3.BoolVal(a[0].rid == obj.rid and isc(a[0].off) and cval(a[0].off) == off))
        if not en.check_access(s, a[1], n, "buffer", i): raise PathEnd("bad")
        r = en.flatten(s, a[1]); old = r.arr; q = z3.BitVec("q!enc", 64); rel = q - a[1].off
        w = s.wregion(a[1]); w.arr = z3.Lambda([q], z3.If(z3.ULT(rel, n), z3.Select(old, q) ^ KEYB(d + rel), z3.Select(old, q)))
        if s.wlog is not None: s.wlog.add((a[1].rid, "*", 0))
        s.ghost[("rc4done",)] = simp(d + n); return n
    e.intercepts.insert(0, (rx(r"^mm::PdfRC4Stream::Encrypt\(char\*, unsigned long\)"), enc))
def underlying(e, u, st, n):
    """contract of the stream below (D01): delivers its bytes in order, at most as many as asked for, and reports the end"""
    dev, D = new_input(st, "device", n)
    def read(en, s, a, i):
        pos = s.ghost[("inpos", dev.rid)]; c = fresh("count", 64); eof = fresh("eof", z3.BoolSort()); ok = fresh("readable", z3.BoolSort())
        if not s.dry: en.prove("ReadBuffer/pre/the stream below", s, z3.BoolVal(a[0].rid == dev.rid))
        if not en.check_access(s, a[1], a[2], "read", i): raise PathEnd("bad")
        def good(x):
            x.assume(z3.And(z3.ULE(c, a[2]), z3.ULE(c, n - pos), z3.Implies(eof, pos + c == n)))
            src = x.new_region("data", n, kind="buf"); x.mem[src.rid].arr = D
            en.memcpy(x, a[1], padd(src, pos), c, check=False); x.ghost[("inpos", dev.rid)] = simp(pos + c); en.store(x, a[3], 1, z3.If(eof, u8(1), u8(0)), check=False); return c
        return Fork([(ok, good), (z3.Not(ok), lambda x: Throw("_ZTIN2mm8PdfErrorE", fresh("error", 32)))])
    e.intercepts.insert(0, (rx(r"^mm::InputStream::ReadBuffer\("), read))
    return dev, D
@proof("RC4 input stream")
def rc4in(u):
    """readBuffer: the next bytes of the encrypted data combined with the key stream, never more than its length; the end is reported exactly at the end of the data or of the stream below"""
    F = u.m.find(RI + "::readBuffer"); e = u.engine(""); st = State(e); this = st.new_obj("stream", RI); n = z3.BitVec("n", 64); st.assume(z3.ULT(n, BV(1 << 40, 64))); dev, D = underlying(e, u, st, n)
    st.setfld(this, RI, "m_InputStream", dev); L = z3.BitVec("left", 64); st.setfld(this, RI, "m_inputLen", L); d = z3.BitVec("done", 64); base = z3.BitVec("start", 64)
    st.assume(z3.And(z3.ULT(d, BV(1 << 40, 64)), z3.ULT(base, BV(1 << 40, 64)), z3.ULT(L, BV(1 << 40, 64)), z3.ULE(base + d, n))); st.ghost[("inpos", dev.rid)] = simp(base + d); st.ghost[("rc4done",)] = d
    use_rc4(e, this, u.m.field(RI, "m_stream")[0])
    size = z3.BitVec("size", 64); st.assume(z3.ULT(size, BV(1 << 40, 64))); buf, B = st.buffer("buffer", size); eof = st.new_region("eof", 1); w = z3.BitVec("watched byte", 64)
    ps = e.run(F, [this, buf, size, eof], st); finals(e, ps, "readBuffer")
    for q in ps:
        if q.kind == "throw": continue
        r = q.ret; e.prove("readBuffer/post/at most what is asked for and what is left", q, z3.And(z3.ULE(r, size), z3.ULE(r, L)))
        e.prove("readBuffer/post/the next bytes, decrypted", q, z3.Implies(z3.ULT(w, r), q.bytes_at(buf, w) == z3.Select(D, base + d + w) ^ KEYB(d + w)))
        e.prove("readBuffer/post/progress", q, z3.And(q.fld(this, RI, "m_inputLen") == L - r, q.ghost[("rc4done",)] == d + r, q.ghost[("inpos", dev.rid)] == base + d + r))
        e.prove("readBuffer/post/the end is reported at the end only", q, z3.And(z3.Implies(q.rd(eof, 1) != 0, z3.Or(r == L, base + d + r == n)), z3.Implies(r == L, q.rd(eof, 1) != 0)))
@proof("RC4 output stream")
def rc4out(u):
    """writeBuffer: writes every byte combined with the next byte of the key stream, in order, and nothing else"""
    F = u.m.find(RO + "::writeBuffer"); e = u.engine(""); st = State(e); this = st.new_obj("stream", RO); n = z3.BitVec("n", 64); st.assume(z3.ULT(n, BV(1 << 40, 64))); buf, B = st.buffer("data", n)
    d = z3.BitVec("done", 64); st.ghost[("rc4done",)] = d; st.ghost[("wrote",)] = BV(0, 64); use_rc4(e, this, u.m.field(RO, "m_stream")[0]); out = st.new_region("output", 64); st.setfld(this, RO, "m_OutputStream", out)
    w = z3.BitVec("watched byte", 64); st.assume(z3.ULT(w, n)); hit = []
    def write(en, s, a, i):
        p = s.ghost[("wrote",)]; c = simp(a[2])
        if not en.check_access(s, a[1], c, "write", i): raise PathEnd("bad")
        if not s.dry:
            e.prove("Write/pre/the stream below", s, z3.BoolVal(a[0].rid == out.rid))
            e.prove("Write/post/the next bytes, encrypted", s, z3.Implies(z3.And(z3.UGE(w, p), z3.ULT(w, p + c)), en.load(s, padd(a[1], w - p), 1, check=False) == z3.Select(B, w) ^ KEYB(d + w)))
        s.ghost[("wrote",)] = simp(p + c)
    e.intercepts.insert(0, (rx(r"^mm::OutputStream::Write\(char const\*, unsigned long\)"), write))
    ps = e.run(F, [this, buf, n], st); finals(e, ps, "writeBuffer")
    for q in ps:
        if q.kind == "ret": e.prove("writeBuffer/post/everything is written", q, z3.And(q.ghost[("wrote",)] == n, q.ghost[("rc4done",)] == d + n))

# ---- AES input stream ---------------------------------------------------------------------------------
@proof("AES input stream")
def aesin(u):
    """readBuffer: whatever the sizes asked for, the decrypted bytes come in order, each once and completely; the buffer is not exceeded; only the data of the stream is read; its first 16 bytes are the initial vector; data of at most 16 bytes is empty"""
    F = u.m.find(AI + "::readBuffer")
    for init in (True, False):
        e = u.engine("first call: " if init else "later call: "); st = State(e); this = st.new_obj("stream", AI); n = z3.BitVec("n", 64); st.assume(z3.ULT(n, BV(1 << 30, 64))); dev, D = underlying(e, u, st, n); st.setfld(this, AI, "m_InputStream", dev)
        T, start, c, p, PL = (z3.BitVec(x, 64) for x in ("total", "start", "decrypted", "produced", "plain length"))
        st.assume(z3.And(z3.ULE(start, n), z3.ULE(T, n - start)))                       # the data is complete
        empty = z3.ULE(T, 16); C = simp(T - 16); fin = z3.Bool("finished")
        st.assume(z3.Implies(empty, PL == 0)); st.assume(z3.Implies(z3.Not(empty), z3.ULT(PL, C)))
        P = st.new_region("plain", BV(1 << 31, 64), kind="buf"); plain = st.mem[P.rid].arr
        ctx = st.new_region("context", 64); st.setfld(this, AI, "m_ctx", ctx); st.setfld(this, AI, "m_init", z3.BoolVal(init)); kl = st.fld(this, AI, "m_keyLen")
        off, left = st.fld(this, AI, "m_tempOffset"), st.fld(this, AI, "m_tempLeft"); cap = z3.BitVec("capacity", 64); tmp, A = st.buffer("temp", cap); tv = st.fptr(this, AI, "m_tempBuffer"); st.ghost[("temp",)] = tmp; st.ghost[("cap",)] = cap
        st.assume(z3.And(z3.ULT(cap, BV(1 << 31, 64))))
        def state(s, c, p, fin, d, w):
            """what holds between calls: d bytes delivered"""
            off, left, ln = (s.fld(this, AI, x) for x in ("m_tempOffset", "m_tempLeft", "m_inputLen")); eof = tobool(s.fld(this, AI, "m_inputEof"))
            return [("decrypted bytes not delivered yet are kept", z3.And(d + left == p, z3.ULE(d, p), z3.ULE(left, 1 << 31), z3.ULE(off, 1 << 31), z3.ULE(off + left, s.ghost[("cap",)]), z3.Implies(z3.ULT(w, left), s.bytes_at(s.ghost[("temp",)], simp(off + w)) == z3.Select(plain, d + w)))),
                    ("rest of the data", z3.If(empty, z3.And(eof, left == 0, p == 0), z3.And(z3.ULE(c, C), ln == C - c, s.ghost[("inpos", dev.rid)] == start + 16 + c, eof == fin))),
                    ("all bytes are decrypted at the end", z3.And(z3.ULE(p, PL), z3.Implies(eof, p == PL)))]
        w, d = z3.BitVec("watched byte", 64), z3.BitVec("delivered", 64); st.assume(z3.ULT(w, BV(1 << 31, 64)))
        if init:
            st.assume(z3.And(st.fld(this, AI, "m_inputLen") == T, z3.Not(tobool(st.fld(this, AI, "m_inputEof"))), left == 0, off == 0, c == 0, p == 0, z3.Not(fin), d == 0)); st.ghost[("inpos", dev.rid)] = start; st.ghost[("started",)] = z3.BoolVal(False)
        else:
            st.ghost[("inpos", dev.rid)] = simp(z3.If(empty, start, start + 16 + c)); st.ghost[("started",)] = z3.BoolVal(True)
            q = z3.BitVec("q!tmp", 64); st.wregion(tmp).arr = z3.Lambda([q], z3.If(z3.And(z3.UGE(q, off), z3.ULT(q - off, left)), z3.Select(plain, d + q - off), z3.Select(A, q)))
            for _, t in state(st, c, p, fin, d, w): st.assume(t)
        for k, v in (("c", c), ("p", p), ("fin", fin)): st.ghost[(k,)] = v
        add = lambda r, h: e.intercepts.insert(0, (rx(r), h)); V = r"^std::vector<unsigned char, std::allocator<unsigned char> ?>::"
        def resize(en, s, a, i):   # keeps what is there
            o, oc = s.ghost[("temp",)], s.ghost[("cap",)]; b = s.new_region("temp", a[1], kind="buf"); r = en.flatten(s, o); q = z3.BitVec("q!rs", 64); x = s.wregion(b); x.arr = z3.Lambda([q], z3.If(z3.ULT(q, oc), z3.Select(r.arr, q), u8(0)))
            s.ghost[("temp",)] = b; s.ghost[("cap",)] = simp(a[1])
        add(V + r"resize\(unsigned long\)", resize); add(V + r"data\(\)", lambda en, s, a, i: s.ghost[("temp",)]); add(V + r"size\(\)", lambda en, s, a, i: s.ghost[("cap",)])
        cipher = {}
        for k in (128, 256):
            def mk(en, s, a, i, k=k):
                q = s.new_region("cipher", 8); s.ghost[("cipher", q.rid)] = k; return q
            e.intercepts.insert(0, (nrx("^EVP_aes_%d_cbc$" % k), mk))
        def start_(en, s, a, i):
            bits = s.ghost.get(("cipher", a[1].rid)) if isinstance(a[1], Ptr) else None
            if not s.dry:
                e.prove("EVP_DecryptInit/pre/once, AES of the key's length", s, z3.And(z3.Not(s.ghost[("started",)]), z3.BoolVal(bits is not None and a[0].rid == ctx.rid), kl == (bits or 0) // 8))
                e.prove("EVP_DecryptInit/pre/the key of the stream", s, z3.BoolVal(a[3].rid == this.rid and isc(a[3].off) and cval(a[3].off) == u.m.field(AI, "m_key")[0]))
                for j in range(16): e.prove("EVP_DecryptInit/pre/the first bytes are the initial vector", s, en.load(s, padd(a[4], j), 1) == z3.Select(D, start + j))
            s.ghost[("started",)] = z3.BoolVal(True); return Fork([(z3.Bool("init ok"), lambda x: BV(1, 32)), (z3.Not(z3.Bool("init ok")), lambda x: BV(0, 32))])
        e.intercepts.insert(0, (nrx("^EVP_DecryptInit_ex$"), start_))
        v = z3.BitVec("watched input", 64)
        def update(en, s, a, i):
            ln = simp(z3.SignExt(32, a[4])); cc, pp = s.ghost[("c",)], s.ghost[("p",)]; o = fresh("outl", 32); o64 = z3.ZeroExt(32, o)
            if not s.dry:
                e.prove("EVP_DecryptUpdate/pre/started, not finished, a length", s, z3.And(s.ghost[("started",)], z3.Not(s.ghost[("fin",)]), z3.Not(a[4] < 0), z3.Not(empty)))
                e.prove("EVP_DecryptUpdate/pre/the next bytes of the data", s, z3.And(z3.ULE(cc + ln, C), z3.Implies(z3.ULT(v, ln), en.load(s, padd(a[3], v), 1, check=False) == z3.Select(D, start + 16 + cc + v))))
            if not (en.check_access(s, a[1], simp(ln + 16), "decrypted data", i) and en.check_access(s, a[3], ln, "data", i)): raise PathEnd("bad")
            def ok(x):
                x.assume(z3.And(z3.ULE(o64, ln + 16), z3.ULE(pp + o64, PL))); en.memcpy(x, a[1], padd(P, pp), simp(o64), check=False); en.store(x, a[2], 4, o); x.ghost[("c",)] = simp(cc + ln); x.ghost[("p",)] = simp(pp + o64); return BV(1, 32)
            b = fresh("update ok", z3.BoolSort()); return Fork([(b, ok), (z3.Not(b), lambda x: BV(0, 32))])
        e.intercepts.insert(0, (nrx("^EVP_DecryptUpdate$"), update))
        def final(en, s, a, i):
            pp = s.ghost[("p",)]; o = fresh("outl", 32); o64 = z3.ZeroExt(32, o)
            if not s.dry: e.prove("EVP_DecryptFinal/pre/all of the data was decrypted, once", s, z3.And(s.ghost[("started",)], z3.Not(s.ghost[("fin",)]), s.ghost[("c",)] == C, z3.Not(empty)))
            if not en.check_access(s, a[1], BV(16, 64), "last block", i): raise PathEnd("bad")
            def ok(x):
                x.assume(z3.And(z3.ULE(o64, 16), pp + o64 == PL)); en.memcpy(x, a[1], padd(P, pp), simp(o64), check=False); en.store(x, a[2], 4, o); x.ghost[("p",)] = PL; x.ghost[("fin",)] = z3.BoolVal(True); return BV(1, 32)
            b = fresh("final ok", z3.BoolSort()); return Fork([(b, ok), (z3.Not(b), lambda x: BV(0, 32))])
        e.intercepts.insert(0, (nrx("^EVP_DecryptFinal_ex$"), final))
        size = z3.BitVec("size", 64); st.assume(z3.ULT(size, BV(1 << 30, 64))); buf, B = st.buffer("buffer", size); eof = st.new_region("eof", 1)
        ps = e.run(F, [this, buf, size, eof], st); finals(e, ps, "readBuffer")
        for q in ps:
            if q.kind == "throw": e.prove("readBuffer/post/raises an error of the library", q, z3.BoolVal(q.exc.get("code") is not None)); continue
            r = q.ret; e.prove("readBuffer/post/at most what is asked for", q, z3.ULE(r, size))
            e.prove("readBuffer/post/the next decrypted bytes", q, z3.And(z3.ULE(d + r, PL), z3.Implies(z3.ULT(w, r), q.bytes_at(buf, w) == z3.Select(plain, d + w))))
            e.prove("readBuffer/post/the end is reported exactly when every byte was delivered", q, (q.rd(eof, 1) != 0) == z3.And(tobool(q.fld(this, AI, "m_inputEof")), d + r == PL))
            e.prove("readBuffer/post/started", q, z3.Not(tobool(q.fld(this, AI, "m_init"))))
            for nm, t in state(q, q.ghost[("c",)], q.ghost[("p",)], q.ghost[("fin",)], simp(d + r), w): e.prove("readBuffer/post/" + nm, q, t)

# ---- encrypting and decrypting whole buffers -------------------------------------------------------------
AES2, AES3, R4 = "mm::PdfEncryptAESV2", "mm::PdfEncryptAESV3", "mm::PdfEncryptRC4"
OK = [BV(1 << k, 64) for k in range(4)]
class Handler:
    """an encryption object with its keys, and OpenSSL by its contract"""
    def __init__(self, u, cls, prefix):
        self.u = u; self.cls = cls; e = self.e = u.engine(prefix); st = self.st = State(e); self.this = st.new_region("handler", u.m.sizeof(cls)); m = u.m
        z = [k for k in m.globals if k == "_ZTV" + cls.replace("mm::", "N2mm%d" % len(cls[4:])) + "E"]
        st.wr(self.this, 8, e.gptr(st, z[0], BV(16, 64)))
        self.ref = st.new_obj("ref", "mm::PdfReference"); self.ctx = st.new_region("context", 64); self.key = z3.Const("objkey", ARR8); self.keylen = z3.BitVec("objkeylen", 32)
        add = lambda r, h: e.intercepts.insert(0, (rx(r), h)); addn = lambda r, h: e.intercepts.insert(0, (nrx(r), h)); self.add, self.addn = add, addn
        def engines(c, base):
            for f in m.structs[c]["m"]:
                if f[0] in ("m_rc4", "m_aes"): st.wr(padd(self.this, base + f[1]), 8, st.new_region("engine", 8))
                elif f[0] in ("<base>", "") and f[3] in m.structs: engines(f[3], base + f[1])
        engines(cls, 0)
        if cls == AES2: self.keylen = BV(16, 32)
        elif cls == R4: st.assume(z3.And(z3.UGE(self.keylen, 5), z3.ULE(self.keylen, 16)))
        else: self.keylen = BV(32, 32)
        def objkey(en, s, a, i):   # contract: a function of the file key and the reference (E02)
            if not s.dry: e.prove("CreateObjKey/pre/this handler and this object", s, z3.BoolVal(a[0].rid == self.this.rid and a[3].rid == self.ref.rid))
            if not en.check_access(s, a[1], 16, "object key", i): raise PathEnd("bad")
            for j in range(16): en.store(s, padd(a[1], j), 1, z3.Select(self.key, BV(j, 64)))
            en.store(s, a[2], 4, self.keylen)
        add(r"^mm::PdfEncryptMD5Base::CreateObjKey\(", objkey)
        if cls == AES3:
            o = m.field(EC, "m_encryptionKey")[0]; r = st.wregion(self.this); self.keyp = padd(self.this, o)
            for j in range(32): st.wr(padd(self.this, o + j), 1, z3.Select(self.key, BV(j, 64)))
            st.assume(z3.And(st.fld(self.this, EC, "m_keyLength") == 32))
        add(r"::getEngine\(\)", lambda en, s, a, i: self.ctx)
        for nm, b in (("EVP_aes_128_cbc", ("aes", 16)), ("EVP_aes_256_cbc", ("aes", 32)), ("EVP_rc4", ("rc4", 0))):
            def mk(en, s, a, i, b=b):
                q = s.new_region("cipher", 8); s.ghost[("cipher", q.rid)] = b; return q
            addn("^" + nm + "$", mk)
        st.ghost[("evp",)] = ("none",); st.ghost[("padding",)] = z3.Bool("padding left by others")
        def ctxok(s, a): e.prove("OpenSSL/pre/the context of the handler", s, z3.BoolVal(isinstance(a[0], Ptr) and a[0].rid == self.ctx.rid)) if not s.dry else None
        def init(dirn):
            def h(en, s, a, i):
                ctxok(s, a); null = lambda p: isinstance(p, Ptr) and p.rid == 0 or (z3.is_bv(p) and isc(p) and cval(p) == 0)
                st0 = s.ghost[("evp",)]; cip = None if null(a[1]) else s.ghost.get(("cipher", a[1].rid))
                if cip: cur = {"dir": dirn, "cipher": cip, "key": None, "iv": None, "len": None}
                elif st0[0] == "init": cur = dict(st0[1])
                else: raise Unsupported("context without cipher")
                if not null(a[3]):
                    n = cur["cipher"][1] if cur["cipher"][0] == "aes" else 16
                    if cur["cipher"][0] == "rc4" and cur["len"] is None and not s.dry: e.prove("OpenSSL/pre/the length of the key is set before the key", s, z3.BoolVal(False))
                    cur["key"] = [en.load(s, padd(a[3], j), 1, check=cur["cipher"][0] == "aes") for j in range(n)]
                    if not null(a[4]): cur["iv"] = [en.load(s, padd(a[4], j), 1) for j in range(16)]
                s.ghost[("evp",)] = ("init", cur)
                b = fresh("init ok", z3.BoolSort()); return Fork([(b, lambda x: BV(1, 32)), (z3.Not(b), lambda x: BV(0, 32))])
            return h
        addn("^EVP_EncryptInit_ex$", init("enc")); addn("^EVP_DecryptInit_ex$", init("dec"))
        def setpad(en, s, a, i): ctxok(s, a); s.ghost[("padding",)] = simp(a[1] != 0); return BV(1, 32)
        addn("^EVP_CIPHER_CTX_set_padding$", setpad)
        def setlen(en, s, a, i):
            ctxok(s, a); cur = dict(s.ghost[("evp",)][1]); cur["len"] = a[1]; s.ghost[("evp",)] = ("init", cur); b = fresh("length ok", z3.BoolSort()); return Fork([(b, lambda x: BV(1, 32)), (z3.Not(b), lambda x: BV(0, 32))])
        addn("^EVP_CIPHER_CTX_set_key_length$", setlen)
    def keyok(self, s, cur):
        """the key in use is the one of the object"""
        if cur["cipher"][0] == "rc4": return z3.And(cur["len"] == self.keylen, *[z3.Implies(z3.ULT(BV(j, 32), self.keylen), k == z3.Select(self.key, BV(j, 64))) for j, k in enumerate(cur["key"])])
        return z3.And(self.keylen == len(cur["key"]), *[k == z3.Select(self.key, BV(j, 64)) for j, k in enumerate(cur["key"])])
    def transform(self, dirn, src, n, total, arr, split):
        """one update and one final call turn the n bytes at src into the total bytes of arr; what the first call gives is any split allowed"""
        e = self.e; w = z3.BitVec("watched input", 64); self.st.ghost[("done",)] = 0
        def check(s, a):
            g = s.ghost[("evp",)]
            if s.dry: return
            cur = g[1] if g[0] == "init" else None
            e.prove("OpenSSL/pre/in the right direction", s, z3.BoolVal(cur is not None and (cur["dir"] == dirn or cur["cipher"][0] == "rc4") and cur["key"] is not None))
            e.prove("OpenSSL/pre/the key of the object", s, self.keyok(s, cur)); e.prove("OpenSSL/pre/padding as for every block cipher", s, z3.BoolVal(True) if cur["cipher"][0] == "rc4" else s.ghost[("padding",)])
            self.ivcheck(s, cur)
        def update(en, s, a, i):
            if s.ghost[("done",)] != 0 and not s.dry: e.prove("OpenSSL/pre/one update", s, z3.BoolVal(False)); raise PathEnd("bad")
            check(s, a); ln = simp(z3.SignExt(32, a[4])); e.prove("EVP_Update/pre/the whole input", s, z3.And(ln == n, z3.Implies(z3.ULT(w, n), en.load(s, padd(a[3], w), 1, check=False) == src(w))))
            o = fresh("outl", 32); o64 = z3.ZeroExt(32, o)
            def ok(x):
                x.assume(split(o64)); 
                if not en.check_access(x, a[1], o64, "output", i): raise PathEnd("bad")
                b = x.new_region("result", total, kind="buf"); x.mem[b.rid].arr = arr; en.memcpy(x, a[1], b, o64, check=False); en.store(x, a[2], 4, o); x.ghost[("done",)] = 1; x.ghost[("moved",)] = o64; x.ghost[("target",)] = a[1]; return BV(1, 32)
            c = fresh("update ok", z3.BoolSort()); return Fork([(c, ok), (z3.Not(c), lambda x: BV(0, 32))])
        def final(en, s, a, i):
            if not s.dry: e.prove("EVP_Final/pre/after the update, behind what it gave", s, z3.And(z3.BoolVal(s.ghost[("done",)] == 1), z3.BoolVal(a[1].rid == s.ghost[("target",)].rid), a[1].off == s.ghost[("target",)].off + s.ghost[("moved",)]))
            if s.ghost[("done",)] != 1: raise PathEnd("bad")
            rest = simp(total - s.ghost[("moved",)])
            def ok(x):
                if not en.check_access(x, a[1], rest, "output", i): raise PathEnd("bad")
                b = x.new_region("result", total, kind="buf"); x.mem[b.rid].arr = arr; en.memcpy(x, a[1], padd(b, x.ghost[("moved",)]), rest, check=False); en.store(x, a[2], 4, simp(z3.Extract(31, 0, rest))); x.ghost[("done",)] = 2; return BV(1, 32)
            c = fresh("final ok", z3.BoolSort()); return Fork([(c, ok), (z3.Not(c), lambda x: BV(0, 32))])
        for d in ("Encrypt", "Decrypt"): self.addn("^EVP_%sUpdate$" % d, update); self.addn("^EVP_%sFinal_ex$" % d, final)
def methods(u, cls, name): return u.m.find(cls + "::" + name)
def lengths(u, cls, st, e, H, n):
    """the value of CalculateStreamLength(n)"""
    ps = e.run(methods(u, cls, "CalculateStreamLength"), [H.this, n], st.clone()); assert len(ps) >= 1
    r = ps[-1].ret
    for q in ps[:-1]: r = z3.If(z3.And(*q.pc), q.ret, r)
    return simp(r)
LIM = BV((1 << 31) - 64, 64)
def crypt(cls):
    def f(u):
        """Encrypt: key of the object, fresh initial vector in front, everything encrypted, and the result is exactly as long as CalculateStreamLength says; Decrypt: the same key and the initial vector from the front give back the data, with its length"""
        aes = cls != R4
        n = z3.BitVec("n", 64); total = simp((n & ~BV(15, 64)) + 16) if aes else n; X = z3.Const("plain", ARR8); Y = z3.Const("cipher", ARR8); IV = z3.Const("iv", ARR8); w = z3.BitVec("watched byte", 64); hdr = 16 if aes else 0
        # encryption
        H = Handler(u, cls, "Encrypt: "); e, st = H.e, H.st; st.assume(z3.ULT(n, LIM)); st.assume(z3.ULT(w, total)); CL = lengths(u, cls, st, e, H, n)
        q0 = st.clone(); e.prove("CalculateStreamLength/post/length of the initial vector and the padded data", q0, CL == total + hdr); OFF = e.run(methods(u, cls, "CalculateStreamOffset"), [H.this], st.clone())[0].ret; e.prove("CalculateStreamOffset/post/length of the initial vector", q0, OFF == hdr)
        src, A = st.buffer("plain data", n); st.wregion(src).arr = X; out, B = st.buffer("out", CL)
        def iv(en, s, a, i):
            if not en.check_access(s, a[1], 16, "initial vector", i): raise PathEnd("bad")
            for j in range(16): en.store(s, padd(a[1], j), 1, z3.Select(IV, BV(j, 64)))
        H.add(r"::GenerateInitialVector\(", iv)
        def ivcheck(s, cur):
            if aes: e.prove("OpenSSL/pre/the initial vector", s, z3.And(*[v == z3.Select(IV, BV(j, 64)) for j, v in enumerate(cur["iv"])]) if cur["iv"] else z3.BoolVal(False))
        H.ivcheck = ivcheck
        H.transform("enc", lambda i: z3.Select(X, i), n, total, Y, (lambda o: o == (n & ~BV(15, 64))) if aes else (lambda o: o == n))
        ps = e.run(methods(u, cls, "Encrypt"), [H.this, src, n, H.ref, out, CL], st); finals(e, ps, "Encrypt")
        for q in ps:
            if q.kind == "throw": e.prove("Encrypt/post/raises an error of the library", q, z3.BoolVal(q.exc.get("code") is not None)); continue
            e.prove("Encrypt/post/the data was encrypted", q, z3.BoolVal(q.ghost[("done",)] == 2))
            if aes: e.prove("Encrypt/post/initial vector in front", q, z3.And(*[q.bytes_at(out, BV(j, 64)) == z3.Select(IV, BV(j, 64)) for j in range(16)]))
            e.prove("Encrypt/post/all of the encrypted data", q, q.bytes_at(out, simp(hdr + w)) == z3.Select(Y, w))
        # decryption of what encryption gives
        H = Handler(u, cls, "Decrypt: "); e, st = H.e, H.st; st.assume(z3.ULT(n, LIM)); st.assume(z3.ULT(w, n)); N = simp(total + hdr)
        src, A = st.buffer("data", N); room = z3.BitVec("room", 64); st.assume(z3.And(z3.UGE(room, total), z3.ULT(room, LIM))); out, B = st.buffer("out", room)
        q = z3.BitVec("q!d", 64); st.wregion(src).arr = z3.Lambda([q], z3.If(z3.ULT(q, hdr), z3.Select(IV, q), z3.Select(Y, q - hdr)))
        H.ivcheck = ivcheck; ivc = e
        H.transform("dec", lambda i: z3.Select(Y, i), total, n, X, (lambda o: z3.And(z3.ULE(o, n))) if aes else (lambda o: o == n))
        lenp = st.new_region("outLen", 8); st.wr(lenp, 8, simp(total))   # room counts from what DecryptTo passes
        ps = e.run(methods(u, cls, "Decrypt"), [H.this, src, N, H.ref, out, lenp], st); finals(e, ps, "Decrypt")
        for q in ps:
            if q.kind == "throw": e.prove("Decrypt/post/raises an error of the library", q, z3.BoolVal(q.exc.get("code") is not None)); continue
            e.prove("Decrypt/post/the length of the data", q, z3.And(z3.BoolVal(q.ghost[("done",)] == 2), q.rd(lenp, 8) == n))
            e.prove("Decrypt/post/the data that was encrypted", q, q.bytes_at(out, w) == z3.Select(X, w))
        # data too short to hold anything
        if aes:
            H = Handler(u, cls, "Decrypt short data: "); e, st = H.e, H.st; st.assume(z3.ULE(n, 16)); src, A = st.buffer("data", n); out, B = st.buffer("out", BV(0, 64)); lenp = st.new_region("outLen", 8)
            ps = e.run(methods(u, cls, "Decrypt"), [H.this, src, n, H.ref, out, lenp], st); finals(e, ps, "Decrypt"); nothrow(e, ps, "Decrypt")
            for q in ps: e.prove("Decrypt/post/data without content is empty", q, q.rd(lenp, 8) == 0)
    return f
for nm, c in (("AES-128", AES2), ("AES-256", AES3), ("RC4", R4)): proof("encrypt and decrypt, " + nm)(crypt(c))

# ---- whole buffers, and the streams of an object -----------------------------------------------------------
@proof("EncryptTo and DecryptTo")
def bufs(u):
    """EncryptTo gives exactly what Encrypt writes, in as many bytes as CalculateStreamLength says; DecryptTo gives exactly what Decrypt writes, and Decrypt has the room a block cipher may need"""
    for nm in ("EncryptTo", "DecryptTo"):
        F = u.m.find(EC + "::" + nm); e = u.engine(nm + ": "); st = State(e); H = st.new_region("handler", 1024); ref = st.new_obj("ref", "mm::PdfReference"); n = z3.BitVec("n", 64); st.assume(z3.ULT(n, LIM)); data, X = st.buffer("data", n)
        view = st.new_region("view", 16); st.wr(view, 8, data); st.wr(padd(view, 8), 8, n); out = st.new_region("out", 32); first, _ = st.buffer("before", z3.BitVec("before", 64)); st.ghost[("str",)] = (first, z3.BitVec("before", 64)); w = z3.BitVec("watched byte", 64)
        L, off = z3.BitVec("stream length", 64), z3.BitVec("offset", 64); st.assume(z3.And(z3.ULT(L, LIM + 64), z3.Or(off == 0, off == 16))); R, rl = z3.Const("result", ARR8), z3.BitVec("result length", 64); st.ghost[("did",)] = 0
        S = r"^std::(__cxx11::)?basic_string<char, .*>::"
        def resize(en, s, a, i):
            if not s.dry: en.prove(nm + "/pre of resize/a size", s, z3.And(z3.BoolVal(a[0].rid == out.rid), z3.ULT(a[1], 1 << 32)))
            o, oc = s.ghost[("str",)]; b = s.new_region("text", a[1], kind="buf"); r = en.flatten(s, o); q = z3.BitVec("q!rs", 64); s.wregion(b).arr = z3.Lambda([q], z3.If(z3.ULT(q, oc), z3.Select(r.arr, q), u8(0))); s.ghost[("str",)] = (b, simp(a[1]))
        e.intercepts.insert(0, (rx(S + r"resize\(unsigned long\)"), resize)); e.intercepts.insert(0, (rx(S + r"data\(\)"), lambda en, s, a, i: s.ghost[("str",)][0])); e.intercepts.insert(0, (rx(S + r"shrink_to_fit\(\)"), lambda en, s, a, i: None))
        st.wr(H, 8, e.gptr(st, [k for k in u.m.globals if k.startswith("_ZTV") and "PdfEncryptAESV2" in k][0], BV(16, 64)))   # any handler: only its contract is used
        def enc(en, s, a, i):
            if not s.dry: en.prove("Encrypt/pre/the data, the object, and room of the promised length", s, z3.And(z3.BoolVal(nm == "EncryptTo" and a[0].rid == H.rid and a[1].rid == data.rid and a[3].rid == ref.rid and a[4].rid == s.ghost[("str",)][0].rid), a[1].off == 0, a[4].off == 0, a[2] == n, a[5] == L, s.ghost[("str",)][1] == L))
            s.wregion(a[4]).arr = R; s.ghost[("did",)] += 1; return Fork([(z3.Bool("encrypted"), lambda x: None), (z3.Not(z3.Bool("encrypted")), lambda x: Throw("_ZTIN2mm8PdfErrorE", fresh("error", 32)))])
        def dec(en, s, a, i):
            b, c = s.ghost[("str",)]
            if not s.dry:
                en.prove("Decrypt/pre/the data, the object and the buffer", s, z3.And(z3.BoolVal(nm == "DecryptTo" and a[0].rid == H.rid and a[1].rid == data.rid and a[3].rid == ref.rid and a[4].rid == b.rid), a[1].off == 0, a[4].off == 0, a[2] == n))
                en.prove("Decrypt/pre/room for the data without its initial vector and for a block", s, z3.Implies(z3.UGT(n, off), z3.And(z3.UGT(c, n - off), z3.Implies(off == 16, z3.UGE(c, ((n - off) & ~BV(15, 64)) + 16)), en.load(s, a[5], 8) == n - off)))
            def ok(x):
                x.assume(z3.If(z3.UGT(n, off), z3.ULE(rl, n - off), rl == 0)); x.wregion(a[4]).arr = R; en.store(x, a[5], 8, rl); x.ghost[("did",)] += 1
            return Fork([(z3.Bool("decrypted"), ok), (z3.Not(z3.Bool("decrypted")), lambda x: Throw("_ZTIN2mm8PdfErrorE", fresh("error", 32)))])
        for k, h in (("Encrypt", enc), ("Decrypt", dec), ("CalculateStreamLength", lambda en, s, a, i: (s.dry or en.prove("CalculateStreamLength/pre/the length of the data", s, a[1] == n), L)[1]), ("CalculateStreamOffset", lambda en, s, a, i: off)):
            e.intercepts.insert(0, (rx(r"^mm::PdfEncryptAESV2::%s\(" % k), h))
        ps = e.run(F, [H, out, view, ref], st); finals(e, ps, nm)
        for q in ps:
            b, c = q.ghost[("str",)]
            if q.kind == "throw": e.prove(nm + "/post/raises what is raised below", q, z3.BoolVal(q.ghost[("did",)] == 0 or nm == "EncryptTo")); continue
            ln = L if nm == "EncryptTo" else rl
            e.prove(nm + "/post/exactly what was written", q, z3.And(z3.BoolVal(q.ghost[("did",)] == 1), c == ln, z3.Implies(z3.ULT(w, ln), q.bytes_at(b, w) == z3.Select(R, w))))
@proof("streams of an object")
def factories(u):
    """CreateEncryptionInputStream and CreateEncryptionOutputStream: a stream at its beginning over the stream given, limited to the length given, with the key of this object; AES output streams are refused"""
    for cls, which, C in ((AES2, "In", AI), (AES3, "In", AI), (R4, "In", RI), (R4, "Out", RO), (AES2, "Out", None), (AES3, "Out", None)):
        nm = "CreateEncryption%sputStream" % which; H = Handler(u, cls, "%s::%s: " % (cls[4:], nm)); e, st = H.e, H.st; io = st.new_region("stream below", 64); n = z3.BitVec("n", 64); ret = st.new_region("result", 8); w = z3.BitVec("watched byte", 32); st.ghost[("made",)] = None
        def sched(en, s, a, i):
            if not s.dry: e.prove("PdfRC4Stream/pre/the key of the object", s, z3.And(a[2] == H.keylen, z3.Implies(z3.ULT(w, H.keylen), en.load(s, padd(a[1], z3.ZeroExt(32, w)), 1, check=False) == z3.Select(H.key, z3.ZeroExt(32, w)))))
            s.ghost[("made",)] = (a[0].rid, simp(a[0].off))
        e.intercepts.insert(0, (rx(r"^mm::PdfRC4Stream::PdfRC4Stream\("), sched))
        def ctx(en, s, a, i): return Fork([(z3.Bool("a context"), lambda x: H.ctx), (z3.Not(z3.Bool("a context")), lambda x: NULL)])
        H.addn("^EVP_CIPHER_CTX_new$", ctx); nop = lambda en, s, a, i: None
        for b in (r"^mm::(In|Out)putStream::~?(In|Out)putStream\(\)", r"^mm::PdfRC4Stream::~"): e.intercepts.insert(0, (rx(b), nop))
        F = methods(u, cls, nm); ps = e.run(F, [ret, H.this, io] + ([n] if which == "In" else []) + [H.ref], st); finals(e, ps, nm)
        if C is None: e.prove(nm + "/post/refused", st, z3.BoolVal(all(q.kind == "throw" for q in ps))); continue
        for q in ps:
            if q.kind == "throw": e.prove(nm + "/post/raises when out of memory only", q, z3.And(z3.BoolVal(C == AI), z3.Not(z3.Bool("a context")))); continue
            o = q.rd(ret, 8, "ptr"); f = lambda k: q.fld(o, C, k)
            e.prove(nm + "/post/over the stream given", q, z3.BoolVal(q.fld(o, C, "m_InputStream" if which == "In" else "m_OutputStream").rid == io.rid))
            if which == "In": e.prove(nm + "/post/limited to the length given", q, f("m_inputLen") == n)
            if C != AI: g = q.ghost[("made",)]; e.prove(nm + "/post/with a key stream of its own", q, z3.And(z3.BoolVal(g is not None and g[0] == o.rid), g[1] == u.m.field(C, "m_stream")[0]))
            else:
                k = padd(o, u.m.field(C, "m_key")[0]); key = (lambda i: z3.Select(H.key, i))
                e.prove(nm + "/post/with the key of the object", q, z3.And(f("m_keyLen") == H.keylen, z3.Implies(z3.ULT(w, H.keylen), q.bytes_at(k, z3.ZeroExt(32, w)) == key(z3.ZeroExt(32, w)))))
                e.prove(nm + "/post/at its beginning", q, z3.And(tobool(f("m_init")), z3.Not(tobool(f("m_inputEof"))), f("m_tempLeft") == 0, f("m_tempOffset") == 0))
