"""X03 object numbers. The containers of the object list are abstracted by their content: m_Objects maps a reference (number and
generation, 48 bits) to the identity of the object stored under it, m_FreeObjects is a sequence of references, the number sets are sets."""
from engine.api import *
from contracts.tokcommon import enum_val
TUS = ["base/PdfIndirectObjectList.cpp", "base/PdfReference.cpp", "base/PdfObject.cpp"]
LEVEL = "proof"
BOUNDED_NOTE = "native: random histories of creating, removing, replacing, declaring free or unavailable, copying, clearing and collecting garbage against a reference list; numbers beyond 16 bits; documents with gaps appended to each other; a second file loaded into the same document"
TRUSTED = ["std::set, std::deque, std::lower_bound, std::equal_range and node handles behave as in the C++ standard (sets ordered by the comparison functions proved here, binary searches only on sorted sequences: the order is an obligation)",
           "objects stored in the list do not change their reference while stored", "insertion by the parser and by appending documents: the number is neither free nor in use under another generation (the native check appends and reads documents)",
           "creating a PdfObject has no effect on the list"]
UNITS, BOUNDED, proof, bounded = registry()
OL, RF, OB = "mm::PdfIndirectObjectList", "mm::PdfReference", "mm::PdfObject"
ERR = "mm::PdfErrorCode"
class Deleted(tuple):
    """objects deleted so far; behind a loop that deletes: unknown ones (equal to no list)"""
    def havoc(self, st): return Deleted(self + (None,))
KEY, NUM = z3.BitVecSort(48), z3.BitVecSort(32)
MAPS = z3.ArraySort(KEY, z3.BitVecSort(64)); SEQS = z3.ArraySort(z3.BitVecSort(64), KEY); SETS = z3.ArraySort(NUM, z3.BoolSort())
num = lambda r: z3.Extract(47, 16, r)
gen = lambda r: z3.Extract(15, 0, r)
def mk(n, g): return z3.Concat(n, g)
END = BV(1 << 60, 64)
def refat(s, p): return mk(s.rd(p, 4), s.rd(padd(p, 4), 2))
def putref(s, p, r): s.wr(p, 4, simp(num(r))); s.wr(padd(p, 4), 2, simp(gen(r)))
def key(k, p): return (k, p.rid, cval(p.off))
class Lst:
    """an object list with arbitrary content that satisfies the invariant"""
    def __init__(self, u, inv=True, null=False):
        self.u = u; self.e = e = u.engine(""); self.st = st = State(e); m = u.m
        self.this = st.new_region("list", m.sizeof(OL)); self.doc = st.new_region("document", 64)
        f = lambda n: st.fptr(self.this, OL, n)
        self.O, self.F, self.U, self.S = f("m_Objects"), f("m_FreeObjects"), f("m_unavailableObjects"), f("m_objectStreams")
        st.setfld(self.this, OL, "m_Document", self.doc)
        self.reuse = z3.Bool("reuse"); st.setfld(self.this, OL, "m_CanReuseObjectNumbers", self.reuse)
        self.cnt = z3.BitVec("count", 32); st.setfld(self.this, OL, "m_ObjectCount", self.cnt)
        self.obj0 = z3.Const("objects", MAPS); self.q0 = z3.Const("free", SEQS); self.n0 = z3.BitVec("nfree", 64)
        self.u0 = z3.Const("unavailable", SETS); self.s0 = z3.Const("streams", SETS)
        G = st.ghost
        G[key("map", self.O)] = self.obj0; G[key("seq", self.F)] = self.q0; G[key("len", self.F)] = self.n0; G[key("set", self.U)] = self.u0; G[key("set", self.S)] = self.s0
        G[("deleted",)] = Deleted(); st.assume(z3.ULT(self.n0, BV(1 << 40, 64)))
        e.inst_vars = 2; e.inst_of = lambda x: [x - 1] if x.size() == 64 else []; e.inst_terms = [BV(0, 64)]
        stl(e, self)
        if inv:
            for _, t in self.inv(st): st.assume(t)
    def objs(self, s): return s.ghost[key("map", self.O)]
    def seq(self, s): return s.ghost[key("seq", self.F)], s.ghost[key("len", self.F)]
    def un(self, s): return s.ghost[key("set", self.U)]
    def count(self, s): return s.fld(self.this, OL, "m_ObjectCount")
    def inv(self, s):
        O, (Q, n), U, c = self.objs(s), self.seq(s), self.un(s), self.count(s)
        r, r2 = fresh("r", 48), fresh("r2", 48); i, j = fresh("i", 64), fresh("j", 64)
        has = lambda x: z3.Select(O, x) != 0
        A = lambda vs, b, pats: z3.ForAll(vs, b, patterns=pats)
        return [("object numbers in use are counted", A([r], z3.Implies(has(r), z3.And(z3.ULT(num(r), c), num(r) != 0)), [z3.Select(O, r)])),
                ("free numbers are counted", A([i], z3.Implies(z3.ULT(i, n), z3.And(z3.ULT(num(z3.Select(Q, i)), c), num(z3.Select(Q, i)) != 0, gen(z3.Select(Q, i)) != BV(65535, 16))), [z3.Select(Q, i)])),
                ("the free list is ordered and names no number twice", A([i, j], z3.Implies(z3.And(z3.ULT(i, j), z3.ULT(j, n)), z3.ULT(num(z3.Select(Q, i)), num(z3.Select(Q, j)))), [z3.MultiPattern(z3.Select(Q, i), z3.Select(Q, j))])),
                ("no number is free and in use", A([r, i], z3.Implies(z3.And(has(r), z3.ULT(i, n)), num(r) != num(z3.Select(Q, i))), [z3.MultiPattern(z3.Select(O, r), z3.Select(Q, i))])),
                ("no number is in use twice", A([r, r2], z3.Implies(z3.And(has(r), has(r2), num(r) == num(r2)), r == r2), [z3.MultiPattern(z3.Select(O, r), z3.Select(O, r2))])),
                ("no unavailable number is free", A([i], z3.Implies(z3.ULT(i, n), z3.Not(z3.Select(U, num(z3.Select(Q, i))))), [z3.Select(Q, i)])),
                ("no unavailable number is in use", A([r], z3.Implies(has(r), z3.Not(z3.Select(U, num(r)))), [z3.Select(O, r)])),
                ("number 0 is never given", c != 0)]
    # observations
    def free(self, s, r, hint=None):
        """whether r is in the free list"""
        Q, n = self.seq(s); i = fresh("i", 64)
        return z3.Exists([i], z3.And(z3.ULT(i, n), z3.Select(Q, i) == r))
    def numfree(self, s, x):
        Q, n = self.seq(s); i = fresh("i", 64)
        return z3.Exists([i], z3.And(z3.ULT(i, n), num(z3.Select(Q, i)) == x))
    def numused(self, s, x):
        O = self.objs(s); g = fresh("g", 16)
        return z3.Exists([g], z3.Select(O, mk(x, g)) != 0)
    def object(self, name, ref=None, ours=False):
        p = newobj(self.st, name); self.st.ghost[("oid", p.rid)] = z3.BitVec(name + ".identity", 64); self.st.assume(self.st.ghost[("oid", p.rid)] != 0)
        if ours: self.st.setfld(p, OB, "m_Document", self.doc)
        else: self.st.setfld(p, OB, "m_Document", Ptr(0, 0))
        if ref is not None: putref(self.st, self.st.fptr(p, OB, "m_IndirectReference"), ref)
        return p
    def ref(self, name="ref"):
        r = z3.BitVec(name, 48); p = self.st.new_region(name, 8); putref(self.st, p, r); self.e.inst_terms.append(r); return p, r
    def run(self, name, args, loops=()):
        self.what = name.split("::")[-1]
        F = name if name in self.u.m.fns else self.u.m.find(name)
        ps = self.e.run(F, args, self.st, list(loops)); finals(self.e, ps, self.what); return ps
    def ob(self, p, name, t): self.e.prove("%s/post/%s" % (self.what, name), p, t)
    def keeps(self, p, skip=()):
        for n, t in self.inv(p):
            if n not in skip: self.ob(p, "invariant: " + n, t)
    def same_objs(self, p): return self.objs(p) == self.obj0
    def same_free(self, p):
        Q, n = self.seq(p); i = fresh("i", 64); return z3.And(n == self.n0, z3.Implies(z3.ULT(i, n), z3.Select(Q, i) == z3.Select(self.q0, i)))
    def same_rest(self, p): return z3.And(self.un(p) == self.u0, p.ghost[key("set", self.S)] == self.s0)
    def untouched(self, p): return z3.And(self.same_objs(p), self.same_free(p), self.same_rest(p), self.count(p) == self.cnt)
    def code(self, p, n): c = p.exc.get("code"); return c == BV(enum_val(self.u, ERR, n), c.size()) if c is not None else z3.BoolVal(False)
def oid(s, p):
    v = s.ghost.get(("oid", p.rid)) if isinstance(p, Ptr) else None
    if v is None: raise Unsupported("an object of unknown identity")
    return v
def newobj(s, name):
    p = s.new_region(name, s.eng.m.sizeof(OB)); vt = [g for g in s.eng.m.globals if g == "_ZTVN2mm9PdfObjectE"]
    s.wr(p, 8, padd(s.eng.gptr(s, vt[0], 0), 16)); return p
def isptr(p): return isinstance(p, Ptr) and p.rid != 0
SETO = r"^std::set<mm::PdfObject\*, bool \(\*\)\(mm::PdfObject const\*, mm::PdfObject const\*\), std::allocator<mm::PdfObject\*> ?>::"
SETU = r"^std::set<unsigned int, std::less<unsigned int>, std::allocator<unsigned int> ?>::"
DEQ = r"^std::deque<mm::PdfReference, std::allocator<mm::PdfReference> ?>::"
NODE = r"^std::_Node_handle(_common)?<mm::PdfObject\*, "
def stl(e, L):
    def add(p, h): e.intercepts.insert(0, (rx(p), h))
    def home(s, k):   # the region iterators of this container point into; the offset names the element
        g = s.ghost.get(("iter",) + k)
        if g is None: g = s.new_region("elements", BV((1 << 60) + 8, 64)); s.ghost[("iter",) + k] = g
        return g
    def named(s, k, v):
        x = fresh("objects", MAPS); s.facts.append(x == v); s.ghost[k] = x
    def M(s, p): return s.ghost[key("map", p)]
    def it(s, p, r): return Ptr(home(s, key("map", p)).rid, simp(z3.ZeroExt(16, r) << 3))
    def end(s, p): return Ptr(home(s, key("map", p)).rid, END)
    def rof(p): return simp(z3.Extract(50, 3, p.off))
    def owner(s, p):
        for k, v in s.ghost.items():
            if k[0] == "iter" and isptr(v) and v.rid == p.rid: return k[1:]
        raise Unsupported("iterator of an unknown container")
    for k in ("map", "set", "seq"): pass
    def pre(s, name, t): e.prove("%s/pre/%s" % (e.where(s), name), s, t); s.assume(t)
    def member(s, p): return z3.And(p.off != END, z3.Select(s.ghost[owner(s, p)], rof(p)) != 0)
    def first(s, p, least, name):
        """iterator to the first element for which least(r) holds (an upward closed condition)"""
        O = M(s, p); r = fresh(name, 48); x = fresh("x", 48)
        none = z3.ForAll([x], z3.Implies(least(x), z3.Select(O, x) == 0), patterns=[z3.Select(O, x)])
        some = z3.And(least(r), z3.Select(O, r) != 0, z3.ForAll([x], z3.Implies(z3.And(least(x), z3.ULT(x, r)), z3.Select(O, x) == 0), patterns=[z3.Select(O, x)]))
        return Fork([(none, lambda q: end(q, p)), (some, lambda q: it(q, p, r))])
    def cmp_is(s, f, name):
        ok = isinstance(f, FnPtr) and L.u.m.fns[f.name]["dem"].startswith(OL + "::" + name)
        if not ok: raise Unsupported("search with another comparison")
    T = "std::set<PdfObject*> as in the C++ standard, ordered by CompareObject"
    add(SETO + r"begin\(\)", lambda en, s, a, i: first(s, a[0], lambda x: z3.BoolVal(True), "first"))
    add(SETO + r"c?end\(\)", lambda en, s, a, i: end(s, a[0]))
    def lower(en, s, a, i):
        k = owner(s, a[0]); p = Ptr(k[1], k[2]); r = refat(s, a[2]); cmp_is(s, a[3], "CompareReference")
        if not (isptr(a[1]) and a[1].rid == a[0].rid and z3.is_true(simp(a[1].off == END))): raise Unsupported("search in a part of the set")
        O = M(s, p); x = fresh("x", 48)
        pre(s, "the search starts at the first element", z3.ForAll([x], z3.Implies(z3.ULT(x, rof(a[0])) if not z3.is_true(simp(a[0].off == END)) else z3.BoolVal(True), z3.Select(O, x) == 0), patterns=[z3.Select(O, x)]))
        return first(s, p, lambda x: z3.UGE(x, r), "lower")
    add(r"std::lower_bound<std::_Rb_tree_const_iterator<mm::PdfObject\*>, mm::PdfReference, bool \(\*\)", lower)
    def find(en, s, a, i):
        o = s.rd(a[1], 8, "ptr"); ours(s, o); r = refat(s, s.fptr(o, OB, "m_IndirectReference")); p = a[0]
        return Fork([(z3.Select(M(s, p), r) == 0, lambda q: end(q, p)), (z3.Select(M(s, p), r) != 0, lambda q: it(q, p, r))])
    add(SETO + r"find\(", find)
    def deref(en, s, a, i):
        p = s.rd(a[0], 8, "ptr"); pre(s, "an element is accessed", member(s, p)); k = owner(s, p); r = rof(p)
        o = newobj(s, "stored"); s.setfld(o, OB, "m_Document", L.doc); putref(s, s.fptr(o, OB, "m_IndirectReference"), r); s.ghost[("oid", o.rid)] = simp(z3.Select(s.ghost[k], r))
        slot = s.new_region("slot", 8); s.wr(slot, 8, o); return slot
    add(r"^std::_Rb_tree_const_iterator<mm::PdfObject\*>::operator\*\(\)", deref)
    def inc(en, s, a, i):
        p = s.rd(a[0], 8, "ptr"); pre(s, "an element is passed", member(s, p)); k = owner(s, p); r = rof(p)
        f = first(s, Ptr(k[1], k[2]), lambda x: z3.UGT(x, r), "next")
        def w(g):
            def h(q): q.wr(a[0], 8, g(q)); return a[0]
            return h
        return Fork([(c, w(g)) for c, g in f.alts])
    add(r"^std::_Rb_tree_const_iterator<mm::PdfObject\*>::operator\+\+\(\)", inc)
    def ours(s, o):
        d = s.fld(o, OB, "m_Document", "ptr"); pre(s, "an object compared with those in the list belongs to the document (comparing raises otherwise)", z3.BoolVal(isinstance(d, Ptr) and d.rid == L.doc.rid))
    def ins(s, p, o):
        ours(s, o)
        r = refat(s, s.fptr(o, OB, "m_IndirectReference")); O = M(s, p); had = z3.Select(O, r) != 0
        named(s, key("map", p), z3.If(had, O, z3.Store(O, r, oid(s, o)))); return it(s, p, r), had
    def insert(en, s, a, i):
        x, had = ins(s, a[0], s.rd(a[1], 8, "ptr")); return Agg([x, z3.If(had, BV(0, 8), BV(1, 8))])
    add(SETO + r"insert\(mm::PdfObject\* (const&|&&)\)", insert)
    def erase(en, s, a, i):
        p = a[1]; pre(s, "an element is erased", member(s, p)); k = owner(s, p); named(s, k, z3.Store(s.ghost[k], rof(p), BV(0, 64)))
        return None if "ty" not in i else fresh_iter(s, p)
    def fresh_iter(s, p): return Ptr(p.rid, fresh("after", 64))
    add(SETO + r"erase\(std::_Rb_tree_const_iterator", erase)
    def clear(en, s, a, i): s.ghost[key("map", a[0])] = z3.K(KEY, BV(0, 64))
    add(SETO + r"clear\(\)", clear)
    add(SETO + r"(~set\(\)|set\(bool \(\*)", lambda en, s, a, i: s.ghost.__setitem__(key("map", a[0]), z3.K(KEY, BV(0, 64))))
    def swap(en, s, a, i):
        k, l = key("map", a[0]), key("map", a[1]); s.ghost[k], s.ghost[l] = s.ghost[l], s.ghost[k]; s.ghost.pop(("iter",) + k, None); s.ghost.pop(("iter",) + l, None)
    add(SETO + r"swap\(", swap)
    # node handles: one cell, null or a slot with the object
    def extract(en, s, a, i):
        h, p = a[0], a[2]; pre(s, "an element is extracted", member(s, p)); k = owner(s, p); r = rof(p)
        o = newobj(s, "extracted"); s.setfld(o, OB, "m_Document", L.doc); putref(s, s.fptr(o, OB, "m_IndirectReference"), r); s.ghost[("oid", o.rid)] = simp(z3.Select(s.ghost[k], r))
        named(s, k, z3.Store(s.ghost[k], r, BV(0, 64))); slot = s.new_region("node", 8); s.wr(slot, 8, o); s.wr(h, 8, slot)
    add(SETO + r"extract\(", extract)
    NULL = Ptr(0, 0)
    add(NODE + r".*::_Node_handle\(\)", lambda en, s, a, i: s.wr(a[0], 8, NULL))
    def nmove(en, s, a, i):
        s.wr(a[0], 8, s.rd(a[1], 8, "ptr")); s.wr(a[1], 8, NULL); return a[0]
    add(NODE + r".*::(operator=|_Node_handle)\(std::_Node_handle<.*&&\)", nmove)
    add(NODE + r".*::value\(\)", lambda en, s, a, i: s.rd(a[0], 8, "ptr"))
    add(NODE + r".*::empty\(\)", lambda en, s, a, i: z3.BoolVal(not isptr(s.rd(a[0], 8, "ptr"))))
    add(NODE + r".*::~_Node_handle", lambda en, s, a, i: None)
    def ninsert(en, s, a, i):
        h, p, n = a[0], a[1], a[2]; slot = s.rd(n, 8, "ptr")
        if isptr(slot): ins(s, p, s.rd(slot, 8, "ptr")); s.wr(n, 8, NULL)
    add(SETO + r"insert\(std::_Node_handle<", ninsert)
    add(r"^std::_Node_insert_return<.*::~_Node_insert_return", lambda en, s, a, i: None)
    # sets of numbers
    def US(s, p): return s.ghost[key("set", p)]
    def uit(s, p, n): return Ptr(home(s, key("set", p)).rid, simp(z3.ZeroExt(32, n) << 3))
    def uend(s, p): return Ptr(home(s, key("set", p)).rid, END)
    add(SETU + r"c?end\(\)", lambda en, s, a, i: uend(s, a[0]))
    def ufind(en, s, a, i):
        n = s.rd(a[1], 4); p = a[0]; c = z3.Select(US(s, p), n)
        return Ptr(home(s, key("set", p)).rid, simp(z3.If(c, z3.ZeroExt(32, n) << 3, END)))
    add(SETU + r"find\(unsigned int const&\)", ufind)
    add(SETU + r"count\(unsigned int const&\)", lambda en, s, a, i: simp(z3.If(z3.Select(US(s, a[0]), s.rd(a[1], 4)), BV(1, 64), BV(0, 64))))
    def uins(en, s, a, i):
        n = s.rd(a[1], 4); had = z3.Select(US(s, a[0]), n); s.ghost[key("set", a[0])] = simp(z3.Store(US(s, a[0]), n, z3.BoolVal(True)))
        return Agg([uit(s, a[0], n), z3.If(had, BV(0, 8), BV(1, 8))])
    add(SETU + r"insert\(unsigned int", uins)
    add(SETU + r"(clear\(\)|~set\(\)|set\(\))", lambda en, s, a, i: s.ghost.__setitem__(key("set", a[0]), z3.K(NUM, z3.BoolVal(False))))
    add(SETU + r"set\(std::set<", lambda en, s, a, i: s.ghost.__setitem__(key("set", a[0]), s.ghost[key("set", a[1])]))
    # the free list
    def Q(s, p): return s.ghost[key("seq", p)], s.ghost[key("len", p)]
    def setq(s, p, q, n): s.ghost[key("seq", p)] = q; s.ghost[key("len", p)] = simp(n)
    def dit(s, out, p, ix):   # iterator in memory
        for o in (8, 16, 24): s.wr(padd(out, o), 8, NULL)
        s.wr(out, 8, Ptr(home(s, key("seq", p)).rid, simp(ix << 3)))
    def ixof(p): return simp(z3.LShR(p.off, 3))
    def dread(s, p):
        c = s.rd(p, 8, "ptr"); k = owner(s, c); return Ptr(k[1], k[2]), ixof(c)
    add(DEQ + r"c?begin\(\)", lambda en, s, a, i: dit(s, a[0], a[1], BV(0, 64)))
    add(DEQ + r"c?end\(\)", lambda en, s, a, i: dit(s, a[0], a[1], Q(s, a[1])[1]))
    add(DEQ + r"empty\(\)", lambda en, s, a, i: simp(Q(s, a[0])[1] == 0))
    add(DEQ + r"size\(\)", lambda en, s, a, i: Q(s, a[0])[1])
    def ref_slot(s, r): sl = s.new_region("slot", 8); putref(s, sl, r); return sl
    def front(en, s, a, i):
        q, n = Q(s, a[0]); pre(s, "the free list is not empty", n != 0); return ref_slot(s, z3.Select(q, BV(0, 64)))
    add(DEQ + r"front\(\)", front)
    def popf(en, s, a, i):
        q, n = Q(s, a[0]); pre(s, "the free list is not empty", n != 0); x = fresh("q", SEQS); j = fresh("j", 64)
        s.facts.append(z3.ForAll([j], z3.Select(x, j) == z3.Select(q, j + 1), patterns=[z3.Select(x, j)])); setq(s, a[0], x, n - 1)
    add(DEQ + r"pop_front\(\)", popf)
    add(DEQ + r"(clear\(\)|~deque\(\)|deque\(\))", lambda en, s, a, i: setq(s, a[0], z3.K(z3.BitVecSort(64), BV(0, 48)), BV(0, 64)))
    add(DEQ + r"deque\(std::deque<", lambda en, s, a, i: setq(s, a[0], *Q(s, a[1])))
    def eqr(en, s, a, i):
        out, b, en_, v = a[0], a[1], a[2], a[3]; p, lo = dread(s, b); p2, hi = dread(s, en_); q, n = Q(s, p)
        r = refat(s, v); x, y = fresh("i", 64), fresh("j", 64)
        pre(s, "the whole free list is searched", z3.And(lo == 0, hi == n, z3.BoolVal(key("seq", p) == key("seq", p2))))
        pre(s, "the free list is ordered when searched", z3.ForAll([x, y], z3.Implies(z3.And(z3.ULT(x, y), z3.ULT(y, n)), z3.ULE(z3.Select(q, x), z3.Select(q, y))), patterns=[z3.MultiPattern(z3.Select(q, x), z3.Select(q, y))]))
        l, h = fresh("low", 64), fresh("high", 64)
        s.facts.append(z3.And(z3.ULE(l, h), z3.ULE(h, n), z3.ForAll([x], z3.And(z3.Implies(z3.ULT(x, l), z3.ULT(z3.Select(q, x), r)), z3.Implies(z3.And(z3.UGE(x, l), z3.ULT(x, h)), z3.Select(q, x) == r), z3.Implies(z3.And(z3.UGE(x, h), z3.ULT(x, n)), z3.UGT(z3.Select(q, x), r))), patterns=[z3.Select(q, x)]),
            z3.Implies(z3.ULT(l, h), z3.Select(q, l) == r)))
        e.inst_terms += [l, h]; dit(s, out, p, l); dit(s, padd(out, 32), p, h)
    add(r"std::equal_range<std::_Deque_iterator<mm::PdfReference, mm::PdfReference&, mm::PdfReference\*>, mm::PdfReference, ReferenceComparatorPredicate>", eqr)
    def dinsert(en, s, a, i):
        out, p, at, v = a[0], a[1], a[2], a[3]; p2, ix = dread(s, at); q, n = Q(s, p); r = refat(s, v)
        pre(s, "insertion inside the free list", z3.And(z3.ULE(ix, n), z3.BoolVal(key("seq", p) == key("seq", p2))))
        x = fresh("q", SEQS); j = fresh("j", 64)
        s.facts.append(z3.ForAll([j], z3.Select(x, j) == z3.If(z3.ULT(j, ix), z3.Select(q, j), z3.If(j == ix, r, z3.Select(q, j - 1))), patterns=[z3.Select(x, j)]))
        s.facts.append(z3.Select(x, ix) == r)
        setq(s, p, x, n + 1); dit(s, out, p, ix)
    add(DEQ + r"insert\(std::_Deque_iterator<", dinsert)
    # objects
    def ctor(en, s, a, i):
        o = a[0]; s.wr(o, 8, padd(e.gptr(s, "_ZTVN2mm9PdfObjectE", 0), 16)); s.setfld(o, OB, "m_Document", NULL); s.ghost[("oid", o.rid)] = fresh("identity", 64); s.assume(s.ghost[("oid", o.rid)] != 0)
        x = fresh("ref", 48); putref(s, s.fptr(o, OB, "m_IndirectReference"), BV(0, 48))
    add(r"^mm::PdfObject::PdfObject\(", lambda en, s, a, i: (s.ghost.__setitem__(("temp", a[0].rid), True), ctor(en, s, a, i))[1])
    def dtor(en, s, a, i):
        if s.ghost.get(("temp", a[0].rid)) and s.mem[a[0].rid].name == "local": return     # a local object, never stored
        s.ghost[("deleted",)] = Deleted(s.ghost[("deleted",)] + ((oid(s, a[0]) if ("oid", a[0].rid) in s.ghost else None),))
    add(r"^mm::PdfObject::~PdfObject\(\)", dtor)
    def setdoc(en, s, a, i): s.setfld(a[0], OB, "m_Document", a[1])
    add(r"^mm::PdfObject::SetDocument\(", setdoc)
    add(r"^mm::PdfObject::(setDirty|SetDirty)\(\)", lambda en, s, a, i: None)
    add(r"^(void )?mm::LogMessage", lambda en, s, a, i: None)
    add(r"^mm::Pdf(Dictionary|Array|Name)::~?Pdf(Dictionary|Array|Name)\(|^mm::PdfDictionary::AddKey\(", lambda en, s, a, i: a[0] if "ty" in i else None)
def ref_of(p, o): return refat(p, p.fptr(o, OB, "m_IndirectReference"))

@proof("order")
def order(u):
    """references and stored objects are ordered by number, then generation"""
    e = u.engine(""); ops = {"<": z3.ULT, "==": lambda a, b: a == b, "!=": lambda a, b: a != b}
    for o, f in ops.items():
        st = State(e); a, b = z3.BitVecs("a b", 48); pa, pb = st.new_region("a", 8), st.new_region("b", 8); putref(st, pa, a); putref(st, pb, b)
        ps = e.run(u.m.find("%s::operator%s" % (RF, o)), [pa, pb], st); finals(e, ps, "operator" + o)
        for p in ps: e.prove("PdfReference::operator%s/post/by number, then generation" % o, p, tobool(p.ret) == f(a, b))
    for n in ("CompareObject", "CompareReference"):
        L = Lst(u, False); a, b = z3.BitVecs("a b", 48); oa = L.object("a", a, True); ob = L.object("b", b, True); rb, _ = L.ref("rb"); putref(L.st, rb, b)
        for p in L.run("%s::%s" % (OL, n), [oa, ob if n == "CompareObject" else rb]): L.ob(p, "orders by reference", tobool(p.ret) == z3.ULT(a, b))
    e2 = [k for k, f in u.m.fns.items() if not f["decl"] and f["dem"].startswith("ReferenceComparatorPredicate::operator()")]
    L = Lst(u, False); (pa, a), (pb, b) = L.ref("a"), L.ref("b"); L.what = "ReferenceComparatorPredicate"
    for k in e2:
        for p in L.run(k, [L.st.new_region("predicate", 1), pa, pb]): L.e.prove("ReferenceComparatorPredicate/post/orders by reference", p, tobool(p.ret) == z3.ULT(a, b))
    L.e.prove("the order of the set/post/m_Objects is ordered by CompareObject", None, z3.BoolVal(all(uses_compare(u, f) for f in u.m.fns.values() if not f["decl"] and f["dem"].startswith(OL + "::PdfIndirectObjectList("))))
def uses_compare(u, f):
    import json
    return "CompareObject" in json.dumps(f["blocks"])

@proof("lookup")
def lookup(u):
    for n in ("GetObject", "MustGetObject"):
        L = Lst(u); rp, r = L.ref(); had = z3.Select(L.obj0, r) != 0
        for p in L.run("%s::%s" % (OL, n), [L.this, rp]):
            L.ob(p, "nothing changes", L.untouched(p))
            if p.kind == "throw": L.ob(p, "raises only when there is no such object", z3.And(z3.BoolVal(n == "MustGetObject"), z3.Not(had), L.code(p, "NoObject"))); continue
            if isptr(p.ret): L.ob(p, "the object stored under exactly this reference", z3.And(had, oid(p, p.ret) == z3.Select(L.obj0, r)))
            else: L.ob(p, "null only when there is no such object", z3.And(z3.Not(had), z3.BoolVal(n == "GetObject")))

@proof("next number")
def nextnum(u):
    L = Lst(u); out = L.st.new_region("out", 8); L.st.assume(z3.ULT(L.cnt, BV(8388607, 32)))
    for p in L.run(OL + "::getNextFreeObject", [out, L.this] if u.m.fns[u.m.find(OL + "::getNextFreeObject")]["ret"] == "void" else [L.this], [numloop(L)]):
        L.ob(p, "objects and unavailable numbers are unchanged", z3.And(L.same_objs(p), L.same_rest(p), L.count(p) == L.cnt))
        if p.kind == "throw": L.ob(p, "raises only when the numbers are used up, changing nothing", z3.And(L.code(p, "ValueOutOfRange"), L.same_free(p), z3.Or(z3.Not(L.reuse), L.n0 == 0))); continue
        r = retref(p, out); reused = z3.And(L.reuse, L.n0 != 0); Q, n = L.seq(p); i = fresh("i", 64)
        L.ob(p, "a free number is used first, with the generation it was freed with", z3.Implies(reused, z3.And(r == z3.Select(L.q0, BV(0, 64)), n == L.n0 - 1, z3.Implies(z3.ULT(i, n), z3.Select(Q, i) == z3.Select(L.q0, i + 1)))))
        L.ob(p, "otherwise a number never used before, generation 0", z3.Implies(z3.Not(reused), z3.And(z3.UGE(num(r), L.cnt), gen(r) == 0, L.same_free(p))))
        L.ob(p, "the number is not unavailable", z3.Not(z3.Select(L.u0, num(r))))
        L.ob(p, "the number is not 0", num(r) != 0)
        x = fresh("x", 48); L.ob(p, "no object uses the number", z3.Implies(num(x) == num(r), z3.Select(L.obj0, x) == 0))
        j = fresh("j", 64); L.ob(p, "the number is no longer free", z3.Implies(z3.ULT(j, n), num(z3.Select(Q, j)) != num(r)))
def retref(p, out):
    if p.ret is None: return refat(p, out)
    v = p.ret
    return mk(z3.Extract(31, 0, v), z3.Extract(47, 32, v))
def numloop(L):
    def inv(h):   # the number tried next: the loop-carried local that starts with the object count
        v = [h.phis[k] for k, v0, _ in h.entry if k in h.phis and z3.is_bv(h.phis[k]) and h.phis[k].size() <= 64 and z3.is_true(simp(zx64(v0) == zx64(L.cnt)))]
        for rid in h.fr.allocas:
            R, R0 = h.st.mem[rid], h.st0.mem.get(rid)
            if R0: v += [c[1] for o, c in sorted(R.cells.items()) if z3.is_bv(c[1]) and c[1].size() <= 64 and o in R0.cells and z3.is_bv(R0.cells[o][1]) and z3.is_true(simp(zx64(R0.cells[o][1]) == zx64(L.cnt)))]
        c = v
        if not c: raise Unsupported("the number tried next is not a local variable")
        return [("numbers not tried yet were never used", z3.And(z3.UGE(zx64(c[0]), zx64(L.cnt)), z3.ULT(zx64(c[0]), BV(8388607, 64))))]
    return LoopSpec(inv=inv, name="search for an available number")

FREE_ONLY = ()
@proof("free list")
def freelist(u):
    """SafeAddFreeObject, TryAddFreeObject and AddFreeObject for a number that is neither free nor in use"""
    for n in ("SafeAddFreeObject", "TryAddFreeObject", "AddFreeObject"):
        L = Lst(u); rp, r = L.ref(); st = L.st
        st.assume(z3.And(z3.Not(L.numfree(st, num(r))), num(r) != 0, num(r) != BV(2**32 - 1, 32)))
        x = fresh("any", 48); st.assume(z3.ForAll([x], z3.Implies(num(x) == num(r), z3.Select(L.obj0, x) == 0), patterns=[z3.Select(L.obj0, x)]))
        if n == "AddFreeObject": st.assume(z3.And(gen(r) != BV(65535, 16), z3.Not(z3.Select(L.u0, num(r)))))
        else: st.assume(z3.Not(z3.Select(L.u0, num(r))))
        g = z3.ZeroExt(16, gen(r)) + (1 if n.startswith("Safe") else 0); over = z3.UGE(g, BV(65535, 32)); want = mk(num(r), z3.Extract(15, 0, g))
        for p in L.run("%s::%s" % (OL, n), [L.this, rp]):
            L.ob(p, "does not raise", z3.BoolVal(p.kind != "throw")); L.keeps(p); L.ob(p, "objects are unchanged", L.same_objs(p))
            y = fresh("other", 48)
            L.ob(p, "the number becomes free with that generation", z3.Implies(z3.Not(over), z3.And(L.free(p, want), L.un(p) == L.u0)))
            L.ob(p, "a number that reached the highest generation is never free again", z3.Implies(over, z3.And(L.un(p) == z3.Store(L.u0, num(r), z3.BoolVal(True)), L.same_free(p))))
            L.ob(p, "other free numbers stay free", others(L, p, want))
            if n == "SafeAddFreeObject": L.ob(p, "returns the generation or -1", p.ret == z3.If(over, BV(2**32 - 1, 32), g))
            if n == "TryAddFreeObject": L.ob(p, "returns whether the number can be used again", tobool(p.ret) == z3.Not(over))
def others(L, p, want):
    """besides want, the free list has the references it had"""
    i, j = fresh("i", 64), fresh("j", 64); Q, n = L.seq(p); q, m = L.q0, L.n0; S = z3.Select
    return z3.And(z3.Implies(z3.ULT(i, m), z3.Or(z3.And(z3.ULT(i, n), S(Q, i) == S(q, i)), z3.And(z3.ULT(i + 1, n), S(Q, i + 1) == S(q, i)))),
                  z3.Implies(z3.And(z3.ULT(j, n), S(Q, j) != want), z3.Or(z3.And(z3.ULT(j, m), S(q, j) == S(Q, j)), z3.And(z3.ULT(j - 1, m), S(q, j - 1) == S(Q, j)))))
@proof("free twice")
def freetwice(u):
    """a reference that is in the free list already is not added again"""
    L = Lst(u); rp, r = L.ref(); L.st.assume(L.free(L.st, r))
    for p in L.run(OL + "::AddFreeObject", [L.this, rp]): L.ob(p, "nothing changes", z3.And(z3.BoolVal(p.kind != "throw"), L.untouched(p)))

@proof("remove")
def remove(u):
    for how in ("reference", "iterator", "unmarked"):
        L = Lst(u); st = L.st; rp, r = L.ref(); out = st.new_region("out", 8); had = z3.Select(L.obj0, r) != 0
        dem = {"reference": "RemoveObject(mm::PdfReference const&)", "unmarked": "RemoveObject(mm::PdfReference const&, bool)", "iterator": "RemoveObject(std::_Rb_tree_const_iterator"}[how]
        F = [k for k, f in u.m.fns.items() if not f["decl"] and f["dem"].startswith(OL + "::" + dem)]
        if len(F) != 1: raise Unsupported(dem)
        if how == "iterator":
            st.assume(had); k = key("map", L.O); hm = st.new_region("elements", BV((1 << 60) + 8, 64)); st.ghost[("iter",) + k] = hm
            itp = st.new_region("it", 8); st.wr(itp, 8, Ptr(hm.rid, simp(z3.ZeroExt(16, r) << 3))); args = [out, L.this, itp]
        else: args = [out, L.this, rp] + ([z3.BoolVal(False)] if how == "unmarked" else [])
        strm = z3.Select(L.s0, num(r)); last = z3.UGE(gen(r), BV(65534, 16))
        for p in L.run(F[0], args):
            L.what = "RemoveObject(%s)" % how
            L.keeps(p)
            if p.kind == "throw": L.ob(p, "raises only for an object stream, changing nothing", z3.And(had, strm, L.code(p, "InternalLogic"), L.untouched(p))); continue
            L.ob(p, "an object stream in use is not removed", z3.Not(z3.And(had, strm)))
            o = p.rd(out, 8, "ptr")
            if not isptr(o): L.ob(p, "nothing is removed only when there is no such object", z3.And(z3.Not(had), L.untouched(p))); continue
            L.ob(p, "the object stored under the reference is handed out alive", z3.And(had, oid(p, o) == z3.Select(L.obj0, r), z3.BoolVal(p.ghost[("deleted",)] == ())))
            L.ob(p, "it and nothing else is no longer in the list", L.objs(p) == z3.Store(L.obj0, r, BV(0, 64)))
            if how == "unmarked": L.ob(p, "the number is not freed", z3.And(L.same_free(p), L.un(p) == L.u0)); continue
            y = fresh("other", 48); want = mk(num(r), gen(r) + 1)
            L.ob(p, "its number is freed with a higher generation", z3.Implies(z3.Not(last), z3.And(L.free(p, want), z3.UGT(z3.ZeroExt(16, gen(r)) + 1, z3.ZeroExt(16, gen(r))), L.un(p) == L.u0)))
            L.ob(p, "at the highest generation its number is never used again", z3.Implies(last, z3.And(L.same_free(p), z3.Select(L.un(p), num(r)))))
            L.ob(p, "other free numbers stay free", others(L, p, want))
def insertable(L, r):
    """the number may be used under this reference"""
    x = fresh("any", 48)
    return z3.And(num(r) != 0, num(r) != BV(2**32 - 1, 32), z3.Not(L.numfree(L.st, num(r))), z3.Not(z3.Select(L.u0, num(r))), z3.ForAll([x], z3.Implies(z3.And(num(x) == num(r), x != r), z3.Select(L.obj0, x) == 0), patterns=[z3.Select(L.obj0, x)]))
@proof("insert")
def insert(u):
    L = Lst(u); r = z3.BitVec("ref", 48); o = L.object("object", r); L.st.assume(insertable(L, r)); me = oid(L.st, o)
    for p in L.run(OL + "::PushObject", [L.this, o]):
        L.ob(p, "does not raise", z3.BoolVal(p.kind != "throw")); L.keeps(p)
        L.ob(p, "the object is found under its reference and no other object moved", L.objs(p) == z3.Store(L.obj0, r, me))
        L.ob(p, "its reference is kept", ref_of(p, o) == r); L.ob(p, "free numbers are unchanged", z3.And(L.same_free(p), L.same_rest(p)))
        d = p.ghost[("deleted",)]; old = z3.Select(L.obj0, r)
        L.ob(p, "only an object it replaces is deleted", z3.And(z3.BoolVal(len(d) <= 1), *([old != 0, d[0] == old] if d else [old == 0])))
        L.ob(p, "the object belongs to the document", z3.BoolVal(p.fld(o, OB, "m_Document", "ptr").rid == L.doc.rid))
@proof("create")
def create(u):
    for n, mk_ in (("addNewObject", None), ("CreateObject(mm::PdfObject const&)", 1), ("CreateObject(mm::PdfObject&&)", 1), ("CreateArrayObject()", 0), ("CreateDictionaryObject(", 2)):
        F = [k for k, f in u.m.fns.items() if not f["decl"] and f["dem"].startswith(OL + "::" + n)]
        if len(F) != 1: raise Unsupported(n)
        L = Lst(u); L.st.assume(z3.ULT(L.cnt, BV(8388607, 32))); st = L.st
        o = L.object("source")
        if n.startswith("CreateDict"): sv = [st.new_region("view", 16), st.new_region("view", 16)]
        args = [L.this] + ([o] if mk_ in (None, 1) else sv if mk_ == 2 else [])
        for p in L.run(F[0], args, [numloop(L)]):
            L.what = n.split("(")[0] if mk_ != 1 else n.split("(")[0] + ("(copy)" if "const" in n else "(move)"); L.keeps(p)
            if p.kind == "throw": L.ob(p, "raises only when the numbers are used up, changing nothing", z3.And(L.code(p, "ValueOutOfRange"), L.untouched(p))); continue
            ob = o if mk_ is None else p.ret
            r = ref_of(p, ob); x = fresh("x", 48); i = fresh("i", 64); Q, n1 = L.seq(p)
            L.ob(p, "the new object has a number no object had", z3.And(num(r) != 0, z3.Implies(num(x) == num(r), z3.Select(L.obj0, x) == 0)))
            L.ob(p, "the number was not unavailable", z3.Not(z3.Select(L.u0, num(r))))
            L.ob(p, "the number is no longer free", z3.Implies(z3.ULT(i, n1), num(z3.Select(Q, i)) != num(r)))
            L.ob(p, "a number used before has the generation it was freed with", z3.Or(z3.And(z3.UGE(num(r), L.cnt), gen(r) == 0), z3.And(L.reuse, L.n0 != 0, r == z3.Select(L.q0, BV(0, 64)))))
            L.ob(p, "it is found under that reference and no other object moved", z3.And(L.objs(p) == z3.Store(L.obj0, r, oid(p, ob)), z3.BoolVal(p.ghost[("deleted",)] == ())))
@proof("replace")
def replace(u):
    for null in (False, True):
        L = Lst(u); rp, r = L.ref(); out = L.st.new_region("out", 8); o = Ptr(0, 0) if null else L.object("object"); had = z3.Select(L.obj0, r) != 0
        for p in L.run(OL + "::ReplaceObject", [out, L.this, rp, o]):
            L.keeps(p); L.ob(p, "nothing is deleted", z3.BoolVal(p.ghost[("deleted",)] == ()))
            if p.kind == "throw": L.ob(p, "raises only when there is nothing to replace, changing nothing", z3.And(z3.Not(had) if not null else z3.BoolVal(True), L.code(p, "InvalidHandle"), L.untouched(p))); continue
            q = p.rd(out, 8, "ptr")
            L.ob(p, "the object stored under the reference is handed out", z3.And(had, oid(p, q) == z3.Select(L.obj0, r)) if isptr(q) and not null else z3.BoolVal(False))
            L.ob(p, "the new object takes its place and no other object moved", z3.And(L.objs(p) == z3.Store(L.obj0, r, oid(p, o)), ref_of(p, o) == r) if not null else z3.BoolVal(False))
            L.ob(p, "free numbers are unchanged", z3.And(L.same_free(p), L.same_rest(p)))
@proof("settings")
def settings(u):
    L = Lst(u); b = z3.Bool("can reuse")
    for p in L.run(OL + "::SetCanReuseObjectNumbers", [L.this, b]):
        L.keeps(p); L.ob(p, "objects and unavailable numbers are unchanged", z3.And(L.same_objs(p), L.same_rest(p), L.count(p) == L.cnt))
        L.ob(p, "numbers freed before are not reused when not allowed", z3.And(z3.Implies(z3.Not(b), L.seq(p)[1] == 0), z3.Implies(b, L.same_free(p)), p.fld(L.this, OL, "m_CanReuseObjectNumbers") == b))
    L = Lst(u); rp, r = L.ref(); L.st.assume(num(r) != BV(2**32 - 1, 32))
    for p in L.run(OL + "::TryIncrementObjectCount", [L.this, rp]):
        L.keeps(p); L.ob(p, "the number counts as used and the count never falls", z3.And(z3.UGT(L.count(p), num(r)), z3.UGE(L.count(p), L.cnt), L.same_objs(p), L.same_free(p), L.same_rest(p)))
    L = Lst(u); x = z3.BitVec("number", 32)
    for p in L.run(OL + "::AddObjectStream", [L.this, x]):
        L.ob(p, "only the object streams change", z3.And(p.ghost[key("set", L.S)] == z3.Store(L.s0, x, z3.BoolVal(True)), L.same_objs(p), L.same_free(p), L.un(p) == L.u0, L.count(p) == L.cnt))
@proof("clear")
def clear(u):
    L = Lst(u)
    def inv(h):   # whatever iterates over the objects is at one of them or at the end
        at = [p for k, v in h.st.ghost.items() if k[0] == "iter" and k[1:] == key("map", L.O) for p in h.ptrs(v.rid)]
        return [("objects", L.objs(h.st) == L.obj0), ("at an object or at the end", z3.And(*[z3.Or(p.off == END, z3.Select(L.objs(h.st), simp(z3.Extract(50, 3, p.off))) != 0) for p in at]))]
    for p in L.run(OL + "::Clear", [L.this], [LoopSpec(inv=inv, name="objects")]):
        x = fresh("x", 48); n = fresh("n", 32)
        L.keeps(p); L.ob(p, "nothing is left of the old objects and numbers", z3.And(z3.Select(L.objs(p), x) == 0, L.seq(p)[1] == 0, z3.Not(z3.Select(L.un(p), n)), z3.Not(z3.Select(p.ghost[key("set", L.S)], n)), L.count(p) == 1))
@proof("construct")
def construct(u):
    """lists start out empty with the invariant"""
    for k, f in sorted(u.m.fns.items()):
        if f["decl"] or f["dem"] not in (OL + "::PdfIndirectObjectList()", OL + "::PdfIndirectObjectList(mm::PdfDocument&)") or "C2" not in k: continue
        L = Lst(u, False)
        for p in L.run(k, [L.this] + ([L.doc] if "Document&" in f["dem"] else [])):
            L.what = f["dem"].replace("mm::", ""); x = fresh("x", 48)
            L.keeps(p); L.ob(p, "empty", z3.And(z3.Select(L.objs(p), x) == 0, L.seq(p)[1] == 0))
