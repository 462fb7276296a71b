"""E02 keys of the standard security handler. MD5, RC4, the hashes and AES are functions whose values are known where the code asks for
them: a query log. The keys the standard asks for are computed with that log; a value the code never asked for has no entry."""
from engine.api import *
from contracts.tokcommon import enum_val
from contracts.common import *
TUS = ["base/PdfEncrypt.cpp"]
LEVEL = "proof"
BOUNDED_NOTE = "native: created handlers of every algorithm and key length against an independent implementation of the standard's algorithms (including the hash of revision 6), their dictionaries read again, right, similar and wrong passwords one after the other; every bit of the stored entries changed; every combination of permissions; dictionaries with missing, short or unusable entries"
TRUSTED = ["OpenSSL's MD5, SHA-256, AES-256-CBC and the library's RC4 (E01) compute functions of their arguments and succeed; a cipher started without initial vector starts with zeros", "std::string as in the C++ standard", "SASLprep (libidn) maps a password to at most the bytes it returns", "the table of padding bytes is not written (it has no other user)", "different inputs of a hash give different outputs only as far as the standard's own acceptance test says", "the hash of revision 6 and reading and writing encryption dictionaries are bounded only (native)"]
UNITS, BOUNDED, proof, bounded = registry()
EC, M5, R4, A2, SH, A3 = ("mm::" + x for x in ("PdfEncrypt", "PdfEncryptMD5Base", "PdfEncryptRC4", "PdfEncryptAESV2", "PdfEncryptSHABase", "PdfEncryptAESV3"))
B64, B8 = z3.BitVecSort(64), z3.BitVecSort(8)
ARR8 = z3.ArraySort(B64, B8)
PAD = [0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41, 0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08, 0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80, 0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A]
ALG, ERR = "mm::PdfEncryptAlgorithm", "mm::PdfErrorCode"
def alg(u, n): return BV(enum_val(u, ALG, n), 32)
def rdbytes(s, p, n): return [s.eng.load(s, padd(p, j), 1) for j in range(n)]
def peek(s, p, n): return [s.eng.load(s, padd(p, j), 1, check=False) for j in range(n)]
def put(s, p, bs):
    for j, b in enumerate(bs): s.eng.store(s, padd(p, j), 1, b)
def poke(s, p, bs):
    for j, b in enumerate(bs): s.eng.store(s, padd(p, j), 1, b, check=False)
def syms(name, n): return [z3.BitVec("%s[%d]" % (name, j), 8) for j in range(n)]
def same(a, b): return z3.And(z3.BoolVal(len(a) == len(b)), *[x == y for x, y in zip(a, b) if not x.eq(y)]) if len(a) == len(b) else z3.BoolVal(False)
class Text:
    """a part of unknown length"""
    def __init__(self, s, p, n): self.arr = s.eng.flatten(s, p).arr if False else None; self.s, self.p, self.n = s, p, n
    def at(self, i): return self.s.eng.load(self.s, padd(self.p, i), 1, check=False)
W = z3.BitVec("watched byte", 64)
def seg_eq(s, a, b):
    """two messages (lists of bytes and texts) are equal"""
    if len(a) != len(b): return None
    t = []
    for x, y in zip(a, b):
        if isinstance(x, tuple) != isinstance(y, tuple): return None
        if isinstance(x, tuple): t.append(z3.And(x[1] == y[1], z3.Implies(z3.ULT(W, x[1]), x[0] == y[0])))
        elif not x.eq(y): t.append(x == y)
    return simp(z3.And(*t)) if t else z3.BoolVal(True)
def valid(e, s, t):
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    sv = z3.Solver(); sv.set("timeout", 20000); sv.add(*s.pc); sv.add(z3.Not(t)); return sv.check() == z3.unsat
class Log:
    """values of functions where the code asked for them"""
    def __init__(self, e): self.e = e; self.k = 0
    def new(self, s, kind, args, n):
        r = self.find(s, kind, args, any(isinstance(x, tuple) for y in args for x in y))   # the same answer to the same question
        if r: return r
        self.k += 1; r = syms("%s#%d" % (kind, self.k), n); s.ghost[("log",)] = s.ghost.get(("log",), ()) + ((kind, args, r),)
        return r
    def value(self, s, kind, args, what):
        """the value at args, if the code asked for it"""
        r = self.find(s, kind, args, True)
        if not r: self.e.prove(what, s, z3.BoolVal(False))
        return r
    def find(self, s, kind, args, hard):
        some = []
        for k, a, r in s.ghost.get(("log",), ()):
            if k != kind or len(a) != len(args): continue
            if all(len(x) == len(y) and all(p.eq(q) if not isinstance(p, tuple) and not isinstance(q, tuple) else isinstance(p, tuple) and isinstance(q, tuple) and p[0].eq(q[0]) and p[1].eq(q[1]) for p, q in zip(x, y)) for x, y in zip(a, args)): return r
            some.append((a, r))
        for a, r in some if hard else []:
            ts = [seg_eq(s, x, y) for x, y in zip(a, args)]
            if not any(t is None for t in ts) and valid(self.e, s, z3.And(*ts)): return r
        return None
def crypto(u, e):
    """MD5 and RC4"""
    log = Log(e); add = lambda r, h: e.intercepts.insert(0, (nrx(r), h))
    def init(en, s, a, i): s.ghost[("md", a[0].rid)] = (); return BV(1, 32)
    def update(en, s, a, i):
        n = simp(a[2]); m = s.ghost.get(("md", a[0].rid))
        if m is None: raise Unsupported("MD5 update without init")
        if isc(n): m += tuple(rdbytes(s, a[1], cval(n))) if cval(n) else ()
        else:
            if not en.check_access(s, a[1], n, "hashed data", i): raise PathEnd("bad")
            m += ((en.load(s, padd(a[1], W), 1, check=False), n),)
        s.ghost[("md", a[0].rid)] = m; return BV(1, 32)
    def final(en, s, a, i):
        m = s.ghost.get(("md", a[1].rid))
        if m is None: raise Unsupported("MD5 final without init")
        put(s, a[0], log.new(s, "MD5", (list(m),), 16)); s.ghost[("md", a[1].rid)] = None; return BV(1, 32)
    add("^MD5_Init$", init); add("^MD5_Update$", update); add("^MD5_Final$", final)
    def rc4(en, s, a, i):   # (this, key, keylen, in, inlen, out, outlen): proved against the cipher in E01
        kl, n, m = (simp(x) for x in (a[2], a[4], a[6]))
        if not (isc(kl) and isc(n)): raise Unsupported("RC4 of unknown length")
        if not s.dry: en.prove("RC4/pre/as much output as input", s, n == m)
        put(s, a[5], log.new(s, "RC4", (rdbytes(s, a[1], cval(kl)), rdbytes(s, a[3], cval(n))), cval(n)))
    e.intercepts.insert(0, (rx(r"^mm::PdfEncryptRC4Base::RC4\("), rc4))
    return log
# ---- what the standard says (algorithms 2, 3, 4, 5, 7) -------------------------------------------------
def chain(log, s, msg, n, rev, what):
    d = log.value(s, "MD5", (msg,), what)
    for k in range(50 if rev in (3, 4) else 0):
        if d is None: return None
        d = log.value(s, "MD5", (d[:n],), what)
    return d
def owner_entry(log, s, userpad, ownerpad, n, rev, back, what):
    d = chain(log, s, ownerpad, n, rev, what)
    if d is None: return None
    if rev not in (3, 4): return log.value(s, "RC4", (d[:5], userpad), what)
    x = userpad
    for i in range(20):
        x = log.value(s, "RC4", ([b ^ BV(19 - i if back else i, 8) for b in d[:n]], x), what)
        if x is None: return None
    return x
def file_key(log, s, docid, userpad, oentry, P, n, rev, meta, what):
    m = userpad + oentry + [z3.Extract(8 * k + 7, 8 * k, P) for k in range(4)] + docid + ([] if meta else [u8(255)] * 4)
    d = chain(log, s, m, n, rev, what); return d[:n] if d else None
def user_entry(log, s, docid, key, rev, what):
    """32 bytes, or the 16 that count"""
    if rev == 2: return log.value(s, "RC4", (key, [u8(b) for b in PAD]), what)
    x = log.value(s, "MD5", ([u8(b) for b in PAD] + docid,), what)
    for i in range(20):
        if x is None: return None
        x = log.value(s, "RC4", ([b ^ BV(i, 8) for b in key], x), what)
    return x
def handler(u, st, cls):
    """the object; returns its base class part"""
    H = st.new_region("handler", u.m.sizeof(cls))
    st.wr(H, 8, st.eng.gptr(st, [k for k in u.m.globals if k.startswith("_ZTVN2mm") and cls[4:] in k][0], BV(16, 64))); return H
def meth(u, n):
    for k, g in u.m.globals.items():
        if "padding" in k and g.get("size") == 33: g["const"] = True   # the table is not declared const: it counts as its initial bytes, and a write to it in any function run here is an error
    return u.m.find(n)
@proof("passwords are padded")
def padpw(u):
    """PadPassword: the first 32 bytes of the password followed by the beginning of the padding string"""
    F = meth(u, M5 + "::PadPassword"); e = u.engine(""); st = State(e); H = st.new_region("handler", 512); n = z3.BitVec("n", 64); st.assume(z3.ULT(n, BV(1 << 40, 64))); buf, A = st.buffer("password", n); v = st.new_region("view", 16); st.wr(v, 8, n); st.wr(padd(v, 8), 8, buf); out = st.new_region("padded", 32)
    ps = e.run(F, [H, v, out], st); finals(e, ps, "PadPassword"); nothrow(e, ps, "PadPassword")
    P = z3.K(B64, u8(0))
    for j, b in enumerate(PAD): P = z3.Store(P, BV(j, 64), u8(b))
    for q in ps:
        for j in range(32): e.prove("PadPassword/post/the password, then the padding string", q, q.bytes_at(out, j) == z3.If(z3.ULT(BV(j, 64), n), z3.Select(A, BV(j, 64)), z3.Select(P, simp(j - n))))
@proof("object keys")
def objkeys(u):
    """CreateObjKey: MD5 of the file key, the low three bytes of the number, the low two of the generation and, for AES, the salt; its length is n + 5, at most 16"""
    for n in range(5, 17):
        for aes in (False, True):
            e = u.engine("key of %d bytes%s: " % (n, ", AES" if aes else "")); st = State(e); log = crypto(u, e); H = st.new_region("handler", 512); ref = st.new_obj("ref", "mm::PdfReference"); key = syms("key", n)
            st.setfld(H, EC, "m_keyLength", BV(n, 32)); poke(st, st.fptr(H, EC, "m_encryptionKey"), key); al = st.fld(H, EC, "m_Algorithm"); st.assume((al == alg(u, "AESV2")) == z3.BoolVal(aes)); st.assume(z3.Or(*[al == alg(u, x) for x in ("RC4V1", "RC4V2", "AESV2")]))
            out = st.new_region("objkey", 16); kl = st.new_region("len", 4); num = st.fld(ref, "mm::PdfReference", "m_ObjectNo"); gen = st.fld(ref, "mm::PdfReference", "m_GenerationNo")
            ps = e.run(meth(u, M5 + "::CreateObjKey"), [H, out, kl, ref], st); finals(e, ps, "CreateObjKey"); nothrow(e, ps, "CreateObjKey")
            m = key + [z3.Extract(8 * k + 7, 8 * k, num) for k in range(3)] + [z3.Extract(8 * k + 7, 8 * k, gen) for k in range(2)] + ([u8(b) for b in b"sAlT"] if aes else [])
            for q in ps:
                d = log.value(q, "MD5", (m,), "CreateObjKey/post/hash of key, number, generation and salt"); ln = min(n + 5, 16)
                if d: e.prove("CreateObjKey/post/the key of the object", q, z3.And(q.rd(kl, 4) == ln, same(peek(q, out, ln), d[:ln])))
@proof("owner entry")
def owner(u):
    """ComputeOwnerKey: algorithm 3 of the standard, and its inverse as used when checking an owner password (algorithm 7), for revisions 2 to 4 and every key length"""
    for rev in (2, 3, 4):
        for n in ((5,) if rev == 2 else range(5, 17)):
            for back in (False, True):
                e = u.engine("revision %d, %d bytes%s: " % (rev, n, ", back" if back else "")); st = State(e); log = crypto(u, e); H = st.new_region("handler", 512); up, op = syms("user", 32), syms("owner", 32); a, b, out = st.new_region("userPad", 32), st.new_region("ownerPad", 32), st.new_region("ownerKey", 32); poke(st, a, up); poke(st, b, op)
                ps = e.run(meth(u, M5 + "::ComputeOwnerKey"), [H, a, b, BV(n, 32), BV(rev, 32), BV(1 if back else 0, 1), out], st); finals(e, ps, "ComputeOwnerKey"); nothrow(e, ps, "ComputeOwnerKey")
                for q in ps:
                    w = owner_entry(log, q, up, op, n, rev, back, "ComputeOwnerKey/post/hashes and ciphers of the standard")
                    if w: e.prove("ComputeOwnerKey/post/entry of the standard", q, same(peek(q, out, 32), w))

def identifier(u, e, st, n):
    """the document identifier: a view of n bytes; the copy made of it before hashing"""
    doc, D = st.buffer("identifier", n); v = st.new_region("view", 16); st.wr(v, 8, n); st.wr(padd(v, 8), 8, doc)
    def new(en, s, a, i): p = s.new_region("copy", a[0], kind="buf"); s.ghost[("copy",)] = p; return p
    e.intercepts.insert(0, (nrx("^_Znam$"), new))
    def match(fn, L):
        b = fn["blocks"][L["h"]]; return not any(i["op"] == "icmp" and any(x[0] == "i" for x in i["a"]) for i in b) and not any(i["op"] == "xor" for x in L["b"] for i in fn["blocks"][x])
    def inv(h): return [("identifier copied so far", z3.And(z3.ULE(h.k, n), z3.Implies(z3.ULT(W, h.k), h.st.bytes_at(h.st.ghost[("copy",)], W) == z3.Select(D, W))))]
    return v, D, LoopSpec(inv=inv, name="identifier", match=match, auto=lambda h: (BV(0, 64), [0], []))
def filekey(rev, meta):
  def f(u):
    """ComputeEncryptionKey: algorithm 2 and algorithms 4 and 5 of the standard, for revisions 2 to 4, every key length, permissions, identifier and both settings of metadata encryption"""
    F = meth(u, M5 + "::ComputeEncryptionKey")
    if 1:
        for n in ((5,) if rev == 2 else range(5, 17)):
                e = u.engine("revision %d, %d bytes%s: " % (rev, n, "" if meta else ", metadata in clear")); st = State(e); log = crypto(u, e); H = st.new_region("handler", 512); up, op = syms("user", 32), syms("owner entry", 32); a, b, out = st.new_region("userPad", 32), st.new_region("ownerKey", 32), st.new_region("userKey", 32); poke(st, a, up); poke(st, b, op)
                dl = z3.BitVec("identifier length", 64); st.assume(z3.ULT(dl, BV(1 << 31, 64))); v, D, loop = identifier(u, e, st, dl); P = z3.BitVec("P", 32)
                ps = e.run(F, [H, v, a, b, P, BV(8 * n, 32), BV(rev, 32), out, BV(1 if meta else 0, 1)], st, [loop]); finals(e, ps, "ComputeEncryptionKey"); nothrow(e, ps, "ComputeEncryptionKey")
                for q in ps:
                    d = [] if valid(e, q, dl == 0) else [(z3.Select(D, W), dl)]; what = "ComputeEncryptionKey/post/hashes and ciphers of the standard"
                    k = file_key(log, q, d, up, op, P, n, rev, meta, what)
                    if not k: continue
                    e.prove("ComputeEncryptionKey/post/file key of the standard", q, z3.And(same(peek(q, q.fptr(H, EC, "m_encryptionKey"), n), k), q.fld(H, EC, "m_keyLength") == n))
                    w = user_entry(log, q, d, k, rev, what)
                    if w: e.prove("ComputeEncryptionKey/post/user entry of the standard", q, same(peek(q, out, len(w)), w))
  return f
for rev, meta in ((2, True), (3, True), (4, True), (4, False)): proof("file key and user entry, revision %d%s" % (rev, "" if meta else ", metadata in clear"))(filekey(rev, meta))

@proof("comparing keys")
def checkkey(u):
    """CheckKey: the keys agree in all of the bytes the standard compares: 16 for revisions 3 and 4, otherwise 32"""
    for R, n in ((2, 32), (3, 16), (4, 16), (5, 32), (6, 32)):
        e = u.engine("revision %d: " % R); st = State(e); H = st.new_region("handler", 512); st.setfld(H, EC, "m_rValue", BV(R, 32)); a, b = st.new_region("key1", 32), st.new_region("key2", 32); x, y = syms("key1", 32), syms("key2", 32); poke(st, a, x); poke(st, b, y)
        ps = e.run(meth(u, EC + "::CheckKey"), [H, a, b], st); finals(e, ps, "CheckKey"); nothrow(e, ps, "CheckKey")
        for q in ps: e.prove("CheckKey/post/every byte compared agrees", q, tobool(q.ret) == same(x[:n], y[:n]))
BITS = {"IsPrintAllowed": 0x4, "IsEditAllowed": 0x8, "IsCopyAllowed": 0x10, "IsEditNotesAllowed": 0x20, "IsFillAndSignAllowed": 0x100, "IsAccessibilityAllowed": 0x200, "IsDocAssemblyAllowed": 0x400, "IsHighPrintAllowed": 0x800}
@proof("permission queries")
def perms(u):
    """each query reports exactly its bit of the stored permissions"""
    for nm, bit in BITS.items():
        e = u.engine(""); st = State(e); H = st.new_region("handler", 512); P = z3.BitVec("P", 32); st.setfld(H, EC, "m_pValue", P)
        ps = e.run(meth(u, EC + "::" + nm), [H], st); finals(e, ps, nm); nothrow(e, ps, nm)
        for q in ps: e.prove(nm + "/post/its bit", q, tobool(q.ret) == (P & bit != 0))
# ---- creating keys and checking passwords, over the contracts above ----------------------------------
from engine.models import str_init, str_len, str_buf
def text(s, n, p): return [(s.eng.load(s, padd(p, W), 1, check=False), n)]
def view_text(s, v): return text(s, s.eng.load(s, v, 8), s.eng.load(s, padd(v, 8), 8, "ptr"))
def str_text(s, p): return text(s, str_len(s, p), str_buf(s, p))
def u32(x): return [simp(z3.Extract(8 * k + 7, 8 * k, x)) for k in range(4)]
class Base:
    """a handler with its entries, over the contracts of PadPassword, ComputeOwnerKey, ComputeEncryptionKey and CheckKey"""
    def __init__(self, u, cls, prefix):
        self.u = u; e = self.e = u.engine(prefix); st = self.st = State(e); meth(u, EC + "::CheckKey"); log = self.log = Log(e); H = self.H = st.new_region("handler", u.m.sizeof(cls)); m = u.m; f = lambda x: st.fld(H, EC, x); self.off = lambda x: padd(H, m.field(EC, x)[0])
        self.n = z3.ZeroExt(0, st.fld(H, EC, "m_keyLength")); self.kl, self.rev, self.P = f("m_eKeyLength"), f("m_rValue"), f("m_pValue"); self.meta = f("m_EncryptMetadata")
        self.O, self.U, self.K = syms("stored O", 32), syms("stored U", 32), syms("old key", 32)
        for x, y in (("m_oValue", self.O), ("m_uValue", self.U), ("m_encryptionKey", self.K)): poke(st, self.off(x), y)
        st.assume(z3.And(z3.UGE(self.n, 5), z3.ULE(self.n, 16), self.kl == self.n * 8, z3.Or(z3.And(self.rev == 2, self.n == 5), self.rev == 3, self.rev == 4)))
        if cls == A2: st.assume(z3.And(self.rev == 4, self.n == 16))
        self.s0 = {}
        for x in ("m_userPass", "m_ownerPass", "m_documentId"):
            ln = z3.BitVec(x + " length", 64); st.assume(z3.ULT(ln, BV(1 << 30, 64))); str_init(st, self.off(x), ln); self.s0[x] = str_text(st, self.off(x))
        add = lambda r, h: e.intercepts.insert(0, (rx(r), h))
        def pad(en, s, a, i): put(s, a[2], log.new(s, "pad", (view_text(s, a[1]),), 32))
        add("^" + M5 + r"::PadPassword\(", pad)
        def own(en, s, a, i): put(s, a[6], log.new(s, "owner", (rdbytes(s, a[1], 32), rdbytes(s, a[2], 32), u32(a[3]), u32(a[4]), [self.flag(a[5])]), 32))
        add("^" + M5 + r"::ComputeOwnerKey\(", own)
        def key(en, s, a, i):
            if not s.dry: e.prove("ComputeEncryptionKey/pre/a key length of the standard, this handler", s, z3.And(z3.BoolVal(a[0].rid == H.rid), z3.UGE(a[5], 40), z3.ULE(a[5], 128), a[5] & 7 == 0))
            r = log.new(s, "key", (view_text(s, a[1]), rdbytes(s, a[2], 32), rdbytes(s, a[3], 32), u32(a[4]), u32(a[5]), u32(a[6]), [self.flag(a[8])]), 64)
            poke(s, self.off("m_encryptionKey"), r[:32]); s.setfld(H, EC, "m_keyLength", z3.LShR(a[5], 3)); put(s, a[7], r[32:])
        add("^" + M5 + r"::ComputeEncryptionKey\(", key)
        def check(en, s, a, i):
            x, y = rdbytes(s, a[1], 32), rdbytes(s, a[2], 32)
            return z3.If(z3.Or(self.rev == 3, self.rev == 4), same(x[:16], y[:16]), same(x, y))
        add("^" + EC + r"::CheckKey\(", check)
        def conv(en, s, a, i):
            p = a[0]; o = simp(p.off); g = lambda o: (lambda x: Agg([str_len(x, Ptr(p.rid, o)), str_buf(x, Ptr(p.rid, o))]))
            if isc(o): return g(o)(s)
            if z3.is_app_of(o, z3.Z3_OP_ITE) and isc(o.arg(1)) and isc(o.arg(2)): return Fork([(o.arg(0), g(o.arg(1))), (z3.Not(o.arg(0)), g(o.arg(2)))])   # one of two strings
            raise Unsupported("string at symbolic offset")
        add(r"^std::__cxx11::basic_string<.*>::operator std::basic_string_view<", conv)
        dl = z3.BitVec("identifier length", 64); st.assume(z3.ULT(dl, BV(1 << 30, 64))); self.doc, _ = self.view("identifier", dl)
    def flag(self, b): b = tobool(b); return simp(z3.If(b, u8(1), u8(0)))
    def view(self, name, n):
        b, A = self.st.buffer(name, n); v = self.st.new_region("view", 16); self.st.wr(v, 8, n); self.st.wr(padd(v, 8), 8, b); return v, text(self.st, n, b)
    def pad(self, q, t, what): return self.log.value(q, "pad", (t,), what)
    def owner(self, q, a, b, back, what): return self.log.value(q, "owner", (a, b, u32(self.n), u32(self.rev), [u8(1 if back else 0)]), what) if a and b else None
    def key(self, q, up, O, what): return self.log.value(q, "key", (self.doctext, up, O, u32(self.P), u32(self.kl), u32(self.rev), [self.flag(self.meta)]), what) if up and O else None
    def unchanged(self, q, names): return z3.And(*[z3.And(*[x == y for x, y in zip(*[self.flat(q, n)])]) for n in names])
    def texteq(self, a, b): return z3.And(a[0][1] == b[0][1], z3.Implies(z3.ULT(W, a[0][1]), a[0][0] == b[0][0]))
def generate(cls):
    def f(u):
        """GenerateEncryptionKey: the owner entry from the owner password, or the user password where there is none; then file key and user entry from the user password; all are stored, with the identifier"""
        h = Base(u, cls, ""); e, st, H = h.e, h.st, h.H; h.doctext = view_text(st, h.doc); nm = "GenerateEncryptionKey"
        F = [k for k in u.m.finds(cls + "::" + nm)] if hasattr(u.m, "finds") else u.m.find(cls + "::" + nm)
        ps = e.run(F, [H, h.doc], st); finals(e, ps, nm); nothrow(e, ps, nm); none = h.s0["m_ownerPass"][0][1] == 0
        for q in ps:
            what = nm + "/post/computed as the standard says"
            up = h.pad(q, h.s0["m_userPass"], what); op = up if valid(e, q, none) else h.pad(q, h.s0["m_ownerPass"], what)
            e.prove(nm + "/post/depends on whether there is an owner password", q, z3.BoolVal(valid(e, q, none) or valid(e, q, z3.Not(none))))
            O = h.owner(q, up, op, False, what); r = h.key(q, up, O, what)
            if not r: continue
            e.prove(nm + "/post/entries and key are stored", q, z3.And(same(peek(q, h.off("m_oValue"), 32), O), same(peek(q, h.off("m_uValue"), 32), r[32:]), same(peek(q, h.off("m_encryptionKey"), 32), r[:32]), q.fld(H, EC, "m_keyLength") == h.n))
            e.prove(nm + "/post/identifier, permissions and revision as they were given", q, z3.And(h.texteq(str_text(q, h.off("m_documentId")), h.doctext), q.fld(H, EC, "m_pValue") == h.P, q.fld(H, EC, "m_rValue") == h.rev, q.fld(H, EC, "m_eKeyLength") == h.kl))
    return f
def authenticate(cls):
    def f(u):
        """Authenticate: accepted exactly if the password gives the stored user entry, or the user password found with it in the owner entry does; the file key is then the one of that user password and the password is kept; the entries stay"""
        h = Base(u, cls, ""); e, st, H = h.e, h.st, h.H; h.doctext = view_text(st, h.doc); nm = "Authenticate"; n = z3.BitVec("password length", 64); st.assume(z3.ULT(n, BV(1 << 30, 64))); pv, pt = h.view("password", n)
        F = [k for k, g in u.m.fns.items() if not g["decl"] and g["dem"].startswith(cls + "::Authenticate(") and len(g["dem"].split("string_view<")) == 3][0]
        ps = e.run(F, [H, pv, h.doc], st); finals(e, ps, nm); nothrow(e, ps, nm); what = nm + "/post/computed as the standard says"
        for q in ps:
            up = h.pad(q, pt, what); r = h.key(q, up, h.O, what)
            if not r: continue
            ok = lambda x: z3.If(h.rev == 2, same(x[32:], h.U), same(x[32:48], h.U[:16]))
            user = ok(r); rest = [r, ]
            if valid(e, q, user): want, key, pw = True, r, "m_userPass"
            else:
                e.prove(nm + "/post/user entry decided first", q, z3.Not(user))
                up2 = h.owner(q, h.O, up, True, what); r2 = h.key(q, up2, h.O, what)
                if not r2: continue
                want, key, pw = ok(r2), r2, "m_ownerPass"
            e.prove(nm + "/post/accepted exactly if the entry is reproduced", q, tobool(q.ret) == want)
            e.prove(nm + "/post/the file key of the user password", q, z3.Implies(tobool(q.ret), z3.And(same(peek(q, h.off("m_encryptionKey"), 32), key[:32]), q.fld(H, EC, "m_keyLength") == h.n)))
            for x in ("m_userPass", "m_ownerPass"): e.prove(nm + "/post/the accepted password is kept", q, z3.If(z3.And(tobool(q.ret), z3.BoolVal(x == pw)), h.texteq(str_text(q, h.off(x)), pt), h.texteq(str_text(q, h.off(x)), h.s0[x])))
            e.prove(nm + "/post/entries, permissions and revision stay", q, z3.And(same(peek(q, h.off("m_oValue"), 32), h.O), same(peek(q, h.off("m_uValue"), 32), h.U), q.fld(H, EC, "m_pValue") == h.P, q.fld(H, EC, "m_rValue") == h.rev, q.fld(H, EC, "m_eKeyLength") == h.kl))
            e.prove(nm + "/post/identifier kept", q, h.texteq(str_text(q, h.off("m_documentId")), h.doctext))
    return f
for nm, c in (("RC4", R4), ("AES-128", A2)): proof("creating keys, " + nm)(generate(c)); proof("checking passwords, " + nm)(authenticate(c))
# ---- making handlers -----------------------------------------------------------------------------------
def ctor(u, cls, part):
    c = cls.split("::")[-1]; r = [k for k, g in u.m.fns.items() if not g["decl"] and g["dem"].startswith("%s::%s(%s" % (cls, c, part)) and k.startswith("_ZN") and "C1E" in k] or [k for k, g in u.m.fns.items() if not g["decl"] and g["dem"].startswith("%s::%s(%s" % (cls, c, part))]
    return r[0]
def making(u, prefix):
    e = u.engine(prefix); st = State(e)
    e.intercepts.insert(0, (nrx("^EVP_CIPHER_CTX_new$"), lambda en, s, a, i: s.new_region("context", 64))); return e, st
def mkview(st, name):
    n = z3.BitVec(name + " length", 64); st.assume(z3.ULT(n, BV(1 << 30, 64))); b, A = st.buffer(name, n); v = st.new_region("view", 16); st.wr(v, 8, n); st.wr(padd(v, 8), 8, b); return v, text(st, n, b)
def texteq(a, b): return z3.And(a[0][1] == b[0][1], z3.Implies(z3.ULT(W, a[0][1]), a[0][0] == b[0][0]))
@proof("new handlers")
def newh(u):
    """a new handler keeps both passwords; its algorithm, revision and key length belong together, for RC4 version 2 the length asked for, cut to bytes and to 40 to 128 bits; reserved permission bits are set as the standard asks, the others as given"""
    for cls, al in ((R4, "RC4V1"), (R4, "RC4V2"), (A2, "AESV2"), (A3, "AESV3"), (A3, "AESV3R6")):
        e, st = making(u, al + ": "); H = st.new_region("handler", u.m.sizeof(cls)); (uv, ut), (ov, ot) = mkview(st, "user password"), mkview(st, "owner password"); P, kl = z3.BitVec("protection", 32), z3.BitVec("key length", 32); st.assume(z3.And(kl >= 0, kl < 1 << 20))
        args = [H, uv, ov] + ([P, alg(u, al), kl] if cls == R4 else [P] if cls == A2 else [BV(6 if al == "AESV3R6" else 5, 32), P])
        ps = e.run(ctor(u, cls, "std::basic_string_view"), args, st); finals(e, ps, "PdfEncrypt"); nothrow(e, ps, "PdfEncrypt")
        n = {"RC4V1": BV(5, 32), "AESV2": BV(16, 32)}.get(al, BV(32, 32)); rev = {"RC4V1": 2, "RC4V2": 3, "AESV2": 4, "AESV3": 5, "AESV3R6": 6}[al]
        if al == "RC4V2": n = z3.LShR(z3.If(kl < 40, BV(40, 32), z3.If(kl > 128, BV(128, 32), kl)), 3)
        for q in ps:
            f = lambda x: q.fld(H, EC, x); o = lambda x: padd(H, u.m.field(EC, x)[0])
            e.prove("PdfEncrypt/post/algorithm, revision and key length of the standard", q, z3.And(f("m_Algorithm") == alg(u, al), f("m_rValue") == rev, f("m_keyLength") == n, f("m_eKeyLength") == n * 8))
            e.prove("PdfEncrypt/post/reserved permission bits", q, f("m_pValue") == (P | BV(0xFFFFF0C0, 32))); e.prove("PdfEncrypt/post/metadata are encrypted", q, tobool(f("m_EncryptMetadata")))
            e.prove("PdfEncrypt/post/passwords kept", q, z3.And(texteq(str_text(q, o("m_userPass")), ut), texteq(str_text(q, o("m_ownerPass")), ot)))
def pdfstring(u, st, name, n):
    """a string object of n bytes or more"""
    p = st.new_region(name, 64); d = st.new_region(name + " data", 32); ln = z3.BitVec(name + " length", 64); st.assume(z3.And(z3.UGE(ln, n), z3.ULT(ln, BV(1 << 30, 64)))); str_init(st, d, ln); st.ghost[("raw", p.rid)] = d; return p, peek(st, str_buf(st, d), n)
@proof("handlers of existing documents")
def loaded(u):
    """a handler made from the values of an encryption dictionary has exactly these values and the key length given"""
    for cls, al in ((R4, "RC4V1"), (R4, "RC4V2"), (A2, "AESV2"), (A3, "AESV3"), (A3, "AESV3R6")):
        e, st = making(u, al + ": "); e.intercepts.insert(0, (rx(r"^mm::PdfString::GetRawData\("), lambda en, s, a, i: s.ghost[("raw", a[0].rid)]))
        H = st.new_region("handler", u.m.sizeof(cls)); k = 48 if cls == A3 else 32; (o, O), (v, U) = pdfstring(u, st, "O", k), pdfstring(u, st, "U", k); P, kl, R = z3.BitVec("P", 32), z3.BitVec("Length", 32), z3.BitVec("R", 32); st.assume(z3.And(kl & 7 == 0, kl >= 40, kl <= 128)); meta = z3.Bool("EncryptMetadata"); more = []
        if cls == A3:
            x = [pdfstring(u, st, nm, n) for nm, n in (("OE", 32), ("UE", 32), ("Perms", 16))]; R = BV(6 if al == "AESV3R6" else 5, 32); args = [H, o, x[0][0], v, x[1][0], P, x[2][0], R]; more = list(zip(("m_oeValue", "m_ueValue", "m_permsValue"), [y[1] for y in x]))
        else: args = [H, o, v, P] + ([R, alg(u, al), kl] if cls == R4 else []) + [z3.If(meta, BV(1, 1), BV(0, 1))]
        ps = e.run(ctor(u, cls, "mm::PdfString"), args, st); finals(e, ps, "PdfEncrypt"); nothrow(e, ps, "PdfEncrypt"); n = {R4: z3.LShR(kl, 3), A2: BV(16, 32), A3: BV(32, 32)}[cls]
        for q in ps:
            f = lambda x: q.fld(H, EC, x)
            e.prove("PdfEncrypt/post/the recorded values", q, z3.And(f("m_Algorithm") == alg(u, al), f("m_rValue") == (BV(4, 32) if cls == A2 else R), f("m_pValue") == P, f("m_keyLength") == n, f("m_eKeyLength") == n * 8, *([tobool(f("m_EncryptMetadata")) == meta] if cls != A3 else [])))
            e.prove("PdfEncrypt/post/the recorded entries", q, z3.And(same(peek(q, q.fptr(H, EC, "m_oValue"), k), O), same(peek(q, q.fptr(H, EC, "m_uValue"), k), U), *[same(peek(q, q.fptr(H, SH, nm) if False else padd(H, shoff(u, nm)), len(b)), b) for nm, b in more]))
def shoff(u, nm): return u.m.field(SH, nm)[0]
@proof("copied handlers")
def copied(u):
    """a copy has the same algorithm, revision, permissions, passwords, identifier, entries and key"""
    for cls in (R4, A2, A3):
        e, st = making(u, cls[4:] + ": "); H, G = st.new_region("handler", u.m.sizeof(cls)), st.new_region("original", u.m.sizeof(cls)); meth(u, EC + "::CheckKey")
        names = ("m_userPass", "m_ownerPass", "m_documentId"); at = lambda p, x: padd(p, u.m.field(EC, x)[0]); T = {}
        st.wr(G, 8, e.gptr(st, [k for k in u.m.globals if k.startswith("_ZTVN2mm") and cls[4:] + "E" in k][0], BV(16, 64)))
        for x in names:
            ln = z3.BitVec(x + " length", 64); st.assume(z3.ULT(ln, BV(1 << 30, 64))); str_init(st, at(G, x), ln); T[x] = str_text(st, at(G, x))
        k = 48 if cls == A3 else 32; B = [("m_oValue", k), ("m_uValue", k), ("m_encryptionKey", 32 if cls == A3 else 16)]; V = {x: syms(x, n) for x, n in B}
        for x, n in B: poke(st, at(G, x), V[x])
        more = [("m_oeValue", 32), ("m_ueValue", 32), ("m_permsValue", 16)] if cls == A3 else []
        for x, n in more: V[x] = syms(x, n); poke(st, padd(G, shoff(u, x)), V[x])
        F = {x: st.fld(G, EC, x) for x in ("m_Algorithm", "m_eKeyLength", "m_keyLength", "m_rValue", "m_pValue", "m_EncryptMetadata")}
        ps = e.run(ctor(u, cls, "mm::PdfEncrypt const&"), [H, G], st); finals(e, ps, "PdfEncrypt"); nothrow(e, ps, "PdfEncrypt")
        for q in ps:
            for x, v in F.items(): e.prove("PdfEncrypt/post/the same values", q, q.fld(H, EC, x) == v)
            for x in names: e.prove("PdfEncrypt/post/the same passwords and identifier", q, texteq(str_text(q, at(H, x)), T[x]))
            for x, n in B: e.prove("PdfEncrypt/post/the same entries and key", q, same(peek(q, at(H, x), n), V[x]))
            for x, n in more: e.prove("PdfEncrypt/post/the same entries and key", q, same(peek(q, padd(H, shoff(u, x)), n), V[x]))
# ---- AES-256 (revisions 5 and 6) -----------------------------------------------------------------------
Z16 = [u8(0)] * 16
def aes(u, e, log):
    """OpenSSL: AES-256 CBC; without vector it starts from zeros; blocks that need no padding"""
    add = lambda r, h: e.intercepts.insert(0, (nrx(r), h)); add("^EVP_CIPHER_CTX_new$", lambda en, s, a, i: s.new_region("context", 64)); add("^EVP_CIPHER_CTX_free$", lambda en, s, a, i: None)
    def mk(en, s, a, i): q = s.new_region("cipher", 8); s.ghost[("cipher", q.rid)] = 256; return q
    add("^EVP_aes_256_cbc$", mk)
    null = lambda p: isinstance(p, Ptr) and p.rid == 0 or (z3.is_bv(p) and isc(p) and cval(p) == 0)
    def init(kind):
        def h(en, s, a, i):
            if s.ghost.get(("cipher", getattr(a[1], "rid", None))) != 256: raise Unsupported("cipher other than AES-256 CBC")
            s.ghost[("evp", a[0].rid)] = (kind, rdbytes(s, a[3], 32), Z16 if null(a[4]) else rdbytes(s, a[4], 16), 0, True); return BV(1, 32)
        return h
    add("^EVP_EncryptInit_ex$", init("E")); add("^EVP_DecryptInit_ex$", init("D"))
    def setpad(en, s, a, i):
        k = ("evp", a[0].rid)
        if k in s.ghost: s.ghost[k] = s.ghost[k][:4] + (not (isc(simp(a[1])) and cval(simp(a[1])) == 0),)
        return BV(1, 32)
    add("^EVP_CIPHER_CTX_set_padding$", setpad)
    def update(kind):
        def h(en, s, a, i):
            g = s.ghost.get(("evp", a[0].rid)); n = simp(a[4])
            if not isc(n): raise Unsupported("length unknown")
            n = cval(n); d = rdbytes(s, a[3], n)
            if not s.dry: e.prove("OpenSSL/pre/started once in the right direction, without padding, whole blocks", s, z3.BoolVal(g is not None and g[0] == kind and not g[4] and g[3] == 0 and n % 16 == 0))
            if g is None: raise PathEnd("bad")
            put(s, a[1], log.new(s, "AES " + kind, (g[1], g[2], d), n)); en.store(s, a[2], 4, BV(n, 32)); s.ghost[("evp", a[0].rid)] = g[:3] + (1, g[4]); return BV(1, 32)
        return h
    add("^EVP_EncryptUpdate$", update("E")); add("^EVP_DecryptUpdate$", update("D"))
    def final(en, s, a, i): en.store(s, a[2], 4, BV(0, 32)); return BV(1, 32)
    add("^EVP_(En|De)cryptFinal_ex$", final)
    def rnd(en, s, a, i): x = fresh("rand", 32); s.assume(x >= 0); return x
    add("^rand$", rnd); add("^srand$", lambda en, s, a, i: None); add("^time$", lambda en, s, a, i: fresh("time", 64))
def hash_(u, e, log):
    def h(en, s, a, i):
        if not en.check_access(s, a[1], z3.ZeroExt(32, a[2]), "password", i): raise PathEnd("bad")
        un = isinstance(a[4], Ptr) and a[4].rid == 0
        put(s, a[5], log.new(s, "hash", (text(s, z3.SignExt(32, a[2]), a[1]), rdbytes(s, a[3], 8), [] if un else rdbytes(s, a[4], 48)), 32))
    e.intercepts.insert(0, (rx("^" + SH + r"::ComputeHash\("), h))
@proof("hash of revision 5")
def hash5(u):
    """ComputeHash in revision 5: SHA-256 of password, salt and, for owner passwords, the user entry"""
    for own in (False, True):
        e = u.engine("with user entry: " if own else "without user entry: "); st = State(e); log = Log(e); H = st.new_region("handler", u.m.sizeof(A3)); st.setfld(H, EC, "m_rValue", BV(5, 32)); n = z3.BitVec("length", 32); st.assume(z3.And(n >= 0, n <= 127)); N = z3.ZeroExt(32, n); pw, A = st.buffer("password", N); salt, uv, out = st.new_region("salt", 8), st.new_region("uValue", 48), st.new_region("hash", 32); S, U = syms("salt", 8), syms("U", 48); poke(st, salt, S); poke(st, uv, U)
        add = lambda r, h: e.intercepts.insert(0, (nrx(r), h))
        def init(en, s, a, i): s.ghost[("sha", a[0].rid)] = (); return BV(1, 32)
        def update(en, s, a, i):
            m = s.ghost[("sha", a[0].rid)]; k = simp(a[2])
            if isc(k): m += tuple(rdbytes(s, a[1], cval(k)))
            else:
                if not en.check_access(s, a[1], k, "hashed data", i): raise PathEnd("bad")
                m += ((en.load(s, padd(a[1], W), 1, check=False), k),)
            s.ghost[("sha", a[0].rid)] = m; return BV(1, 32)
        def final(en, s, a, i): put(s, a[0], log.new(s, "SHA256", (list(s.ghost[("sha", a[1].rid)]),), 32)); return BV(1, 32)
        add("^SHA256_Init$", init); add("^SHA256_Update$", update); add("^SHA256_Final$", final)
        ps = e.run(meth(u, SH + "::ComputeHash"), [H, pw, n, salt, uv if own else NULL, out], st); finals(e, ps, "ComputeHash"); nothrow(e, ps, "ComputeHash")
        for q in ps:
            t = [] if valid(e, q, n == 0) else [(z3.Select(A, W), N)]
            d = log.value(q, "SHA256", (t + S + (U if own else []),), "ComputeHash/post/hash of password, salt and user entry")
            if d: e.prove("ComputeHash/post/hash of password, salt and user entry", q, same(peek(q, out, 32), d))
class Sha:
    def __init__(self, u, prefix=""):
        self.u = u; e = self.e = u.engine(prefix); st = self.st = State(e); self.log = Log(e); meth(u, EC + "::CheckKey"); aes(u, e, self.log); H = self.H = st.new_region("handler", u.m.sizeof(A3))
        st.setfld(H, EC, "m_keyLength", BV(32, 32)); self.rev = st.fld(H, EC, "m_rValue"); st.assume(z3.Or(self.rev == 5, self.rev == 6)); self.at = {x: padd(H, u.m.field(c, x)[0]) for c, x in [(EC, y) for y in ("m_uValue", "m_oValue", "m_encryptionKey", "m_userPass", "m_ownerPass")] + [(SH, y) for y in ("m_ueValue", "m_oeValue", "m_permsValue")]}
        self.V = {}
        for x, n in (("m_uValue", 48), ("m_oValue", 48), ("m_encryptionKey", 32), ("m_ueValue", 32), ("m_oeValue", 32), ("m_permsValue", 16)): self.V[x] = syms(x, n); poke(st, self.at[x], self.V[x])
        for x in ("m_userPass", "m_ownerPass"):
            ln = z3.BitVec(x + " length", 64); st.assume(z3.ULT(ln, BV(1 << 30, 64))); str_init(st, self.at[x], ln); self.V[x] = str_text(st, self.at[x])
        for c, k in ((A3, 0),):   # the engine behind m_aes
            def engines(c, base):
                for f in u.m.structs[c]["m"]:
                    if f[0] in ("m_aes", "m_rc4"): st.wr(padd(H, base + f[1]), 8, st.new_region("engine", 8))
                    elif f[0] in ("<base>", "") and f[3] in u.m.structs: engines(f[3], base + f[1])
            engines(c, 0)
        self.ctx = st.new_region("context", 64); e.intercepts.insert(0, (rx(r"::getEngine\(\)"), lambda en, s, a, i: self.ctx))
        def check(en, s, a, i): return same(rdbytes(s, a[1], 32), rdbytes(s, a[2], 32))
        e.intercepts.insert(0, (rx("^" + EC + r"::CheckKey\("), check))
        def prep(en, s, a, i):
            if not s.dry: e.prove("PreprocessPassword/pre/room", s, z3.BoolVal(True))
            if not en.check_access(s, a[2], 127, "prepared password", i): raise PathEnd("bad")
            t = view_text(s, a[1]); s.ghost[("preps",)] = s.ghost.get(("preps",), ())
            for tt, arr, n in s.ghost[("preps",)]:
                if valid(e, s, texteq(tt, t)): break
            else: arr, n = z3.Const(fresh("prepared", 8).decl().name() + " array", ARR8), fresh("prepared length", 64); s.assume(z3.ULE(n, 127)); s.ghost[("preps",)] += ((t, arr, n),)
            b = s.new_region("prepared", 127, kind="buf"); s.mem[b.rid].arr = arr; en.memcpy(s, a[2], b, n, check=False); en.store(s, a[3], 8, n)
        e.intercepts.insert(0, (rx("^" + SH + r"::PreprocessPassword\("), prep))
    def prepared(self, q, t):
        for tt, arr, n in q.ghost.get(("preps",), ()):
            if valid(self.e, q, texteq(tt, t)): return [(z3.Select(arr, W), n)]
        return None
    def cur(self, q, x): return peek(q, self.at[x], len(self.V[x]))
for own in (False, True):
    def mk(own):
        def f(u):
            """the entry is hash, validation salt and key salt; the encrypted entry is the file key under the hash with the key salt; owner entries include the user entry"""
            h = Sha(u); e, st, H = h.e, h.st, h.H; hash_(u, e, h.log); n = z3.BitVec("length", 64); st.assume(z3.ULE(n, 127)); pw, A = st.buffer("password", n); nm = "ComputeOwnerKey" if own else "ComputeUserKey"
            ps = e.run(meth(u, SH + "::" + nm), [H, pw, n], st); finals(e, ps, nm); nothrow(e, ps, nm)
            for q in ps:
                X, XE = (h.cur(q, "m_oValue"), h.cur(q, "m_oeValue")) if own else (h.cur(q, "m_uValue"), h.cur(q, "m_ueValue")); ue = h.V["m_uValue"] if own else []; t = text(q, n, pw)
                d = h.log.value(q, "hash", (t, X[32:40], ue), nm + "/post/hash with the validation salt"); k = h.log.value(q, "hash", (t, X[40:48], ue), nm + "/post/hash with the key salt")
                if not (d and k): continue
                e.prove(nm + "/post/the entry starts with the hash", q, same(X[:32], d)); w = h.log.value(q, "AES E", (k, Z16, h.V["m_encryptionKey"]), nm + "/post/file key encrypted with the hash")
                if w: e.prove(nm + "/post/file key encrypted with the hash", q, same(XE, w))
                for x in ("m_encryptionKey", "m_permsValue") + (("m_uValue", "m_ueValue") if own else ("m_oValue", "m_oeValue")): e.prove(nm + "/post/the rest stays", q, same(h.cur(q, x), h.V[x]))
        return f
    proof("%s entries of AES-256" % ("owner" if own else "user"))(mk(own))
@proof("creating keys, AES-256")
def gen3(u):
    """GenerateEncryptionKey: a file key, then user entries from the prepared user password, owner entries from the prepared owner password and the user entry, and the permissions encrypted with the file key as the standard lays them out"""
    h = Sha(u); e, st, H = h.e, h.st, h.H; P = st.fld(H, EC, "m_pValue"); meta = st.fld(H, EC, "m_EncryptMetadata"); add = lambda r, f: e.intercepts.insert(0, (rx("^" + SH + "::" + r + r"\("), f)); nm = "GenerateEncryptionKey"
    def key(en, s, a, i): h.newkey = syms("new key", 32); poke(s, h.at["m_encryptionKey"], h.newkey); s.ghost[("keyed",)] = True
    add("ComputeEncryptionKey", key)
    def user(en, s, a, i):
        r = h.log.new(s, "user", (text(s, a[2], a[1]), h.cur(s, "m_encryptionKey")), 80); poke(s, h.at["m_uValue"], r[:48]); poke(s, h.at["m_ueValue"], r[48:])
    def owner(en, s, a, i):
        r = h.log.new(s, "owner", (text(s, a[2], a[1]), h.cur(s, "m_encryptionKey"), h.cur(s, "m_uValue")), 80); poke(s, h.at["m_oValue"], r[:48]); poke(s, h.at["m_oeValue"], r[48:])
    add("ComputeUserKey", user); add("ComputeOwnerKey", owner); doc, _ = mkview(st, "identifier")
    ps = e.run(meth(u, A3 + "::" + nm), [H, doc], st); finals(e, ps, nm); nothrow(e, ps, nm)
    for q in ps:
        e.prove(nm + "/post/a file key is made", q, z3.BoolVal(q.ghost.get(("keyed",), False))); K = h.cur(q, "m_encryptionKey"); ut, ot = h.prepared(q, h.V["m_userPass"]), h.prepared(q, h.V["m_ownerPass"])
        e.prove(nm + "/post/both passwords are prepared", q, z3.BoolVal(bool(ut and ot)))
        if not (ut and ot): continue
        r = h.log.value(q, "user", (ut, K), nm + "/post/user entries"); r and e.prove(nm + "/post/user entries", q, same(h.cur(q, "m_uValue") + h.cur(q, "m_ueValue"), r))
        r = h.log.value(q, "owner", (ot, K, h.cur(q, "m_uValue")), nm + "/post/owner entries"); r and e.prove(nm + "/post/owner entries", q, same(h.cur(q, "m_oValue") + h.cur(q, "m_oeValue"), r))
        found = [(a, r) for k, a, r in q.ghost.get(("log",), ()) if k == "AES E"]; pl = u32(P) + [u8(255)] * 4 + [z3.If(tobool(meta), u8(ord("T")), u8(ord("F")))] + [u8(b) for b in b"adb"]
        e.prove(nm + "/post/permissions encrypted with the file key", q, z3.Or(*[z3.And(same(a[0], K), same(a[1], Z16), same(a[2][:12], pl), same(h.cur(q, "m_permsValue"), r)) for a, r in found if len(r) == 16]))
@proof("checking passwords, AES-256")
def auth3(u):
    """Authenticate: accepted exactly if the prepared password reproduces the hash of the user entry or, with the user entry, that of the owner entry; the file key is the entry decrypted with the hash with the key salt"""
    h = Sha(u); e, st, H = h.e, h.st, h.H; hash_(u, e, h.log); nm = "Authenticate"; pv, pt = mkview(st, "password"); doc, _ = mkview(st, "identifier"); V = h.V
    F = [k for k, g in u.m.fns.items() if not g["decl"] and g["dem"].startswith(A3 + "::Authenticate(")][0]
    ps = e.run(F, [H, pv, doc], st); finals(e, ps, nm); nothrow(e, ps, nm)
    for q in ps:
        t = h.prepared(q, pt); e.prove(nm + "/post/the password is prepared", q, z3.BoolVal(bool(t)))
        if not t: continue
        d = h.log.value(q, "hash", (t, V["m_uValue"][32:40], []), nm + "/post/hash with the validation salt of the user entry")
        if not d: continue
        user = same(d, V["m_uValue"][:32]); key = None; is_user = valid(e, q, user)
        if is_user: want = z3.BoolVal(True); salt, ue, enc, pw = V["m_uValue"][40:48], [], V["m_ueValue"], "m_userPass"
        else:
            e.prove(nm + "/post/user entry decided first", q, z3.Not(user)); d2 = h.log.value(q, "hash", (t, V["m_oValue"][32:40], V["m_uValue"]), nm + "/post/hash with the validation salt of the owner entry")
            if not d2: continue
            want = same(d2, V["m_oValue"][:32]); salt, ue, enc, pw = V["m_oValue"][40:48], V["m_uValue"], V["m_oeValue"], "m_ownerPass"
        e.prove(nm + "/post/accepted exactly if the entry is reproduced", q, tobool(q.ret) == want)
        if valid(e, q, z3.Not(tobool(q.ret))): e.prove(nm + "/post/a rejected password leaves the key", q, same(h.cur(q, "m_encryptionKey"), V["m_encryptionKey"]))
        else:
            k = h.log.value(q, "hash", (t, salt, ue), nm + "/post/hash with the key salt"); w = k and h.log.value(q, "AES D", (k, Z16, enc), nm + "/post/the entry is decrypted with the hash")
            if w: e.prove(nm + "/post/the file key", q, same(h.cur(q, "m_encryptionKey"), w))
        for x in ("m_userPass", "m_ownerPass"): e.prove(nm + "/post/the accepted password is kept", q, z3.If(z3.And(tobool(q.ret), z3.BoolVal(x == pw)), texteq(str_text(q, h.at[x]), pt), texteq(str_text(q, h.at[x]), V[x])))
        for x in ("m_uValue", "m_oValue", "m_ueValue", "m_oeValue", "m_permsValue"): e.prove(nm + "/post/the entries stay", q, same(h.cur(q, x), V[x]))
