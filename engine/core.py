"""Symbolic executor / VC generator over the LLVM IR of the real code (see DESIGN.md)."""
import json, sys, time, re, os, itertools
import z3

class Unsupported(Exception):
    """The code uses something the generator cannot express (a tool limit, never a violation)."""

def BV(v, w): return z3.BitVecVal(v, w)
def isc(e): return z3.is_bv_value(e)
def cval(e): return e.as_long()
def simp(e): return z3.simplify(e)
def tobool(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if z3.is_bool(v): return v
    return v == 1
_fresh = [0]
def fresh(name, sort):
    _fresh[0] += 1
    n = "%s!%d" % (name, _fresh[0])
    if isinstance(sort, int): return z3.BitVec(n, sort)
    return z3.Const(n, sort)

ARR = z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8))
F64 = z3.Float64(); F32 = z3.Float32()
RNE = z3.RNE()

class Ptr:
    __slots__ = ("rid", "off")
    def __init__(self, rid, off):
        self.rid = rid
        self.off = BV(off, 64) if isinstance(off, int) else off
    def __repr__(self): return "Ptr(%s,%s)" % (self.rid, self.off)
class FnPtr:
    __slots__ = ("name",)
    def __init__(self, name): self.name = name
    def __repr__(self): return "FnPtr(%s)" % self.name
NULL = Ptr(0, 0)
class Agg:
    __slots__ = ("els",)
    def __init__(self, els): self.els = list(els)
class Undef:
    def __repr__(self): return "undef"
UNDEF = Undef()

class Module:
    def __init__(self, path):
        self.fns = {}; self.structs = {}; self.globals = {}; self.enums = {}; self.bydem = {}
        self._raw = {}
        with open(path) as f:
            for line in f:
                o = json.loads(line)
                k = o["k"]
                if k == "fn":
                    o["dem"] = o["dem"].replace("[abi:cxx11]", "")
                    self.fns[o["name"]] = o
                    self.bydem.setdefault(o["dem"], []).append(o["name"])
                elif k == "struct": self.structs.setdefault(o["name"], o)
                elif k == "enum": self.enums.setdefault(o["name"], dict(o["e"]))
                elif k == "global": self.globals[o["name"]] = o
        for f in self.fns.values():
            for i, L in enumerate(f.get("loops", [])):
                L["b"] = set(L["b"]); L["i"] = i
            f["hdr"] = {L["h"]: L for L in f.get("loops", [])}
    def find(self, dem_prefix, defined=True, pred=None):
        """Mangled name of the unique defined function whose demangled name is, or starts with, dem_prefix."""
        c = [f["name"] for d, ns in self.bydem.items() if d == dem_prefix or d.startswith(dem_prefix + "(") or (dem_prefix.endswith("*") and d.startswith(dem_prefix[:-1]))
             for f in [self.fns[n] for n in ns] if (not f["decl"]) or not defined]
        if pred: c = [n for n in c if pred(self.fns[n])]
        # constructors/destructors: prefer the base-object variant (C2/D2) which has the body
        if len(c) > 1:
            p = [n for n in c if re.search(r"[CD]2E", n)]
            if len(p) == 1: c = p
        if len(c) != 1: raise Unsupported("function %s: %d candidates" % (dem_prefix, len(c)))
        return c[0]
    def field(self, cls, name):
        """(offset, size, type) of a data member, searching base classes."""
        s = self.struct(cls)
        for m in s["m"]:
            if m[0] == name: return m[1], m[2], m[3]
        for m in s["m"]:
            if m[0] == "<base>" or m[0] == "":
                try:
                    o, sz, t = self.field(m[3], name)
                    return o + m[1], sz, t
                except Unsupported: pass
        raise Unsupported("member %s::%s not found" % (cls, name))
    def sizeof(self, cls):
        return self.struct(cls)["size"]
    def struct(self, cls):
        s = self.structs.get(cls)
        if s is None:   # spelled with other spaces
            k = [v for n, v in self.structs.items() if n.replace(" ", "") == cls.replace(" ", "")]
            if len(k) != 1: raise Unsupported("class %s not found" % cls)
            s = k[0]
        return s

class Region:
    """cells: constant offset -> (size, value); arr: byte array holding everything not covered by cells."""
    __slots__ = ("rid", "name", "size", "cells", "arr", "live", "ro", "kind", "owner")
    def __init__(self, rid, name, size, arr=None, kind="obj", owner=None):
        self.owner = owner; self.rid = rid; self.name = name; self.size = size; self.cells = {}; self.arr = arr
        self.live = True; self.ro = False; self.kind = kind
    def clone(self):
        r = Region(self.rid, self.name, self.size, self.arr, self.kind, self.owner)
        r.cells = dict(self.cells); r.live = self.live; r.ro = self.ro
        return r

class Frame:
    __slots__ = ("fn", "env", "bb", "prev", "ip", "call", "loops", "counts", "allocas", "inhead")
    def __init__(self, fn):
        self.inhead = False    # at the start of a loop head whose cut has been made
        self.fn = fn; self.env = {}; self.bb = 0; self.prev = None; self.ip = 0
        self.call = None; self.loops = []; self.counts = {}; self.allocas = []
    def clone(self):
        f = Frame(self.fn); f.inhead = self.inhead; f.env = dict(self.env); f.bb = self.bb; f.prev = self.prev; f.ip = self.ip
        f.call = self.call; f.loops = list(self.loops); f.counts = dict(self.counts); f.allocas = list(self.allocas)
        return f

class LoopRec:
    """An active cut loop."""
    __slots__ = ("L", "k", "spec", "entry", "h0", "depth", "dry", "ivs", "data", "head")

class State:
    def __init__(self, eng):
        self.eng = eng; self.mem = {}; self.pc = []; self.ghost = {}; self.frames = []
        self.wlog = None; self.exc = None; self.trace = []; self.kind = None; self.ret = None; self.facts = []
        self.model_hint = None; self.dry = False
    def clone(self):
        s = State(self.eng); s.mem = dict(self.mem); s.pc = list(self.pc); s.ghost = dict(self.ghost)
        s.frames = [f.clone() for f in self.frames]; s.exc = self.exc; s.trace = list(self.trace)
        s.wlog = set(self.wlog) if self.wlog is not None else None
        s.kind = self.kind; s.ret = self.ret; s.facts = list(self.facts); s.dry = self.dry
        return s
    def assume(self, c):
        c = simp(tobool(c))
        if z3.is_true(c): return
        self.pc.append(c)
    # ---- regions -------------------------------------------------------------------------------
    def new_region(self, name, size, sym=True, kind="obj"):
        self.eng.nrid += 1
        rid = self.eng.nrid
        sz = BV(size, 64) if isinstance(size, int) else size
        r = Region(rid, name, sz, z3.Const("mem_%s_%d" % (name, rid), ARR) if sym else None, kind)
        self.mem[rid] = r
        return Ptr(rid, 0)
    def region(self, p):
        if p.rid == 0: return None
        r = self.mem.get(p.rid)
        if r is None: raise Unsupported("unknown region")
        return r
    def wregion(self, p):
        r = self.region(p).clone(); self.mem[p.rid] = r
        return r
    def new_obj(self, name, cls):
        """An object of class cls with arbitrary member values; bool members hold 0 or 1."""
        p = self.new_region(name, self.eng.m.sizeof(cls))
        def walk(c, base):
            for m in self.eng.m.structs[c]["m"]:
                if m[3].endswith("::bool"): self.assume(z3.ULE(self.rd(padd(p, base + m[1]), 1), BV(1, 8)))
                elif m[0] in ("<base>", "") and m[3] in self.eng.m.structs: walk(m[3], base + m[1])
        walk(cls, 0)
        return p
    # raw typed access without checks (used by contracts)
    def rd(self, p, size, kind="int"):
        return self.eng.load(self, p, size, kind, check=False)
    def wr(self, p, size, v):
        self.eng.store(self, p, size, v, check=False)
    def fld(self, obj, cls, name, kind=None):
        off, sz, t = self.eng.m.field(cls, name)
        k = kind or ("ptr" if t == "*" else ("double" if t.endswith("::double") else "int"))
        v = self.rd(padd(obj, off), sz, k)
        if t.endswith("::bool") and k == "int": return simp(z3.Extract(0, 0, v) == 1)
        return v
    def setfld(self, obj, cls, name, v):
        off, sz, t = self.eng.m.field(cls, name)
        if z3.is_expr(v) and z3.is_bool(v): v = z3.If(v, BV(1, sz * 8), BV(0, sz * 8))
        if isinstance(v, int): v = BV(v, sz * 8)
        self.wr(padd(obj, off), sz, v)
    def fptr(self, obj, cls, name):
        return padd(obj, self.eng.m.field(cls, name)[0])
    def buffer(self, name, n, maxlen=1 << 40):
        """A symbolic byte buffer of n bytes (n a 64-bit term or int); returns (ptr, array)."""
        p = self.new_region(name, n, True, "buf")
        return p, self.mem[p.rid].arr
    def bytes_at(self, p, i):
        return self.rd(padd(p, i), 1)

def padd(p, d):
    if isinstance(d, int):
        if d == 0: return p
        d = BV(d, 64)
    if isc(p.off) and isc(d): return Ptr(p.rid, BV(cval(p.off) + cval(d), 64))
    return Ptr(p.rid, simp(p.off + d))

def bytes_of(v, size):
    """little-endian byte terms of an int/fp value"""
    if z3.is_expr(v) and z3.is_real(v): raise Unsupported("bytes of a real number")
    if z3.is_fp(v): v = z3.fpToIEEEBV(v)
    if z3.is_bool(v): v = z3.If(v, BV(1, 8 * size), BV(0, 8 * size))
    if v.size() < 8 * size: v = z3.ZeroExt(8 * size - v.size(), v)
    return [simp(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(size)]

class Obligation:
    __slots__ = ("name", "status", "secs", "detail", "solver", "model")
    def __init__(self, name, status, secs, detail="", solver="z3", model=None):
        self.name = name; self.status = status; self.secs = secs; self.detail = detail; self.solver = solver; self.model = model

class LoopSpec:
    """inv(h): h is a HeadCtx; returns list of (name, formula). facts(h): definitional facts to assume.
    match(fn, L): whether this spec is for that loop (default: any, in order of encounter)."""
    def __init__(self, inv=None, facts=None, match=None, name="loop", frame=None, havoc=None, depth=0, hints=None, auto=None):
        self.auto = auto       # h -> (phase term, phase values, components): locals are looked for as functions of these
        self.hints = hints or (lambda h: [])   # consequences of the invariant at the head: proved there, then used
        self.depth = depth     # number of cut loops already active when this loop is entered (None: any)
        self.inv = inv or (lambda h: []); self.facts = facts or (lambda h: []); self.match = match; self.name = name
        self.frame = frame; self.havoc = havoc

class HeadCtx:
    """What an invariant may talk about: the memory/ghost state at the loop head, the iteration count k,
    the state at loop entry (st0), and loop-carried locals by their source variable role."""
    def __init__(self, eng, st, k, st0, phis, entry_phis, L, fr):
        self.eng = eng; self.st = st; self.k = k; self.st0 = st0; self.phis = phis; self.entry = entry_phis; self.L = L; self.fr = fr

    def ptrs(self, rid):
        """loop-carried pointers into region rid (locals and stack cells), in a stable order"""
        out = [v for i, v in sorted(self.phis.items()) if isinstance(v, Ptr) and v.rid == rid]
        for r in sorted(self.st.mem):
            R = self.st.mem[r]
            if R.name == "local" and R.live: out += [c[1] for o, c in sorted(R.cells.items()) if isinstance(c[1], Ptr) and c[1].rid == rid]
        return out
    def cursor(self, rid):
        """offset of the loop-carried pointer into rid that the loop changes"""
        ps = [p.off for p in self.ptrs(rid)]
        mv = [p for p in ps if not isc(p)] or ps
        if not mv: raise Unsupported("no cursor into the buffer at the loop head")
        return mv[0]

def has_quant(t):
    if z3.is_quantifier(t): return True
    return z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_IMPLIES, z3.Z3_OP_NOT) and any(has_quant(c) for c in t.children())
class Engine:
    def __init__(self, module, prop="", timeout_ms=20000, max_paths=4000, verbose=False):
        self.m = module; self.prop = prop; self.nrid = 0; self.timeout = timeout_ms; self.max_paths = max_paths
        self.obls = []; self.fast = z3.Solver(); self.fast.set("timeout", 1500)
        self.intercepts = []      # list of (matcher, handler)
        self.contracts = {}       # mangled -> handler(st, args, inst) for modular calls
        self.loopspecs = []; self.verbose = verbose
        self.solver_time = 0.0; self.nqueries = 0; self.fn_under_contract = set(); self.fn_inlined = set(); self.assumed = set()
        self.globals_rid = {}; self.unroll_limit = 300; self.bmc = None; self.safety = True; self.typeids = {}
        self.deadline = None; self.cover = {}; self.auto_inline = True; self.nsw = False
        self._icache = {}
        self.prefix = ""; self.inst_terms = []; self.inst_vars = 1; self.inst_of = lambda x: []; self.srem = None; self.divc = self.sextc = None      # divc: optional abstraction of division by a constant; srem: optional abstraction of remainder by a non-constant
        self.max_steps = 2000000
        from . import models
        models.install(self)
    # ---- solver ---------------------------------------------------------------------------------
    def feasible(self, st, extra=None):
        """False only if pc (+extra) is unsatisfiable."""
        cs = list(st.pc) + list(st.facts)
        if extra is not None: cs.append(extra)
        t = time.time(); self.nqueries += 1
        self.fast.push()
        for c in cs: self.fast.add(c)
        r = self.fast.check()
        self.fast.pop()
        self.solver_time += time.time() - t
        return r != z3.unsat
    def must(self, st, c):
        c = simp(tobool(c))
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return not self.feasible(st, z3.Not(c))
    def small_bound(self, st, n, limit=8):
        """Smallest m <= limit with n <= m on this path, or None."""
        if not self.must(st, z3.ULE(n, BV(limit, n.size()))): return None
        for m in range(limit):
            if self.must(st, z3.ULE(n, BV(m, n.size()))): return m
        return limit
    def prove(self, name, st, goal, extra=()):
        """Record obligation: pc & facts & extra => goal."""
        name = self.prefix + name
        if st is not None and st.dry: return True
        t = time.time()
        goal = tobool(goal)
        g = simp(goal)
        if z3.is_true(g):
            self.obls.append(Obligation(name, "proved", 0.0, solver="simplifier")); return True
        hyps = (list(st.pc) + list(st.facts) if st is not None else []) + list(extra)
        parts = [g]
        if z3.is_and(g) and any(has_quant(c) for c in g.children()): parts = g.children()
        for gp in parts:
            r, which, s = self.decide(name, hyps, gp)
            if r != z3.unsat: break
        dt = time.time() - t
        self.solver_time += dt; self.nqueries += 1
        if r == z3.unsat: o = Obligation(name, "proved", dt, solver=which)
        elif r == z3.sat:
            try: mdl = s.model() if which == "z3" else None
            except z3.Z3Exception: mdl = None
            o = Obligation(name, "refuted", dt, detail=str(mdl)[:1500], model=mdl, solver=which)
        else: o = Obligation(name, "unknown", dt, detail=s.reason_unknown())
        self.obls.append(o)
        if self.verbose: print("  [%s] %s %.2fs %s" % (o.status, name, dt, o.detail[:300] if o.status != "proved" else ""))
        return o.status == "proved"
    def decide(self, name, hyps, g):
        r = z3.unknown; which = "z3"; queries = []
        if any(z3.is_quantifier(c) for c in hyps) or z3.is_quantifier(g):
            # first without quantifiers: goal skolemised, hypotheses instantiated at the skolem constants
            gg = g; sk = []
            if z3.is_quantifier(g) and g.is_forall():
                sk = [fresh("sk", g.var_sort(j)) for j in range(g.num_vars())]
                gg = z3.substitute_vars(g.body(), *reversed(sk))
            s = z3.Solver(); s.set("timeout", min(self.timeout, 3000))
            todo = list(hyps); flat = []
            while todo:
                c = todo.pop()
                if z3.is_and(c): todo += c.children()
                elif z3.is_not(c) and z3.is_quantifier(c.arg(0)) and c.arg(0).is_exists():
                    q = c.arg(0); vs = [fresh("v", q.var_sort(j)) for j in range(q.num_vars())]
                    flat.append(z3.ForAll(vs, z3.Not(z3.substitute_vars(q.body(), *reversed(vs)))))
                else: flat.append(c)
            for c in flat:
                if not z3.is_quantifier(c): s.add(c)
                elif c.is_forall() and c.num_vars() <= self.inst_vars:
                    pool = sk + self.inst_terms + [t for x in sk for t in self.inst_of(x)]
                    pools = [[x for x in pool if x.sort() == c.var_sort(j)] for j in range(c.num_vars())]
                    for xs in itertools.product(*pools): s.add(z3.substitute_vars(c.body(), *reversed(xs)))
            s.add(z3.Not(gg))
            if os.environ.get("VERIF_DUMP") and re.search(os.environ["VERIF_DUMP"], name): open("/tmp/q%d.smt2" % len(self.obls), "w").write(s.to_smt2())
            if s.check() == z3.unsat: r = z3.unsat
            else: queries.append((s, False))
        if r == z3.unknown:
            s = z3.Solver(); s.set("timeout", min(self.timeout, 5000))
            for c in hyps: s.add(c)
            s.add(z3.Not(g))
            if os.environ.get("VERIF_DUMP") and re.search(os.environ["VERIF_DUMP"], name): open("/tmp/qf%d.smt2" % len(self.obls), "w").write(s.to_smt2())
            r = s.check()
            if r == z3.unknown:
                queries.append((s, True)); r, which = portfolio(queries, 3 * self.timeout)
        return r, which, s
    def model(self, st, cond):
        """A model of pc & cond, or None."""
        s = z3.Solver(); s.set("timeout", self.timeout)
        for c in list(st.pc) + list(st.facts): s.add(c)
        s.add(cond); self.nqueries += 1
        return s.model() if s.check() == z3.sat else None
    def reachable(self, name, st, extra=()):
        """Vacuity guard: pc must be satisfiable."""
        name = self.prefix + name
        t = time.time()
        s = z3.Solver(); s.set("timeout", self.timeout)
        for c in list(st.pc) + list(st.facts) + list(extra): s.add(c)
        r = s.check()
        self.obls.append(Obligation(name,  "proved" if r == z3.sat else "refuted" if r == z3.unsat else "unknown", time.time() - t))
        return r == z3.sat
    # ---- memory ---------------------------------------------------------------------------------
    def where(self, st, inst=None):
        fr = st.frames[-1] if st.frames else None
        if fr is None: return "?"
        base = short(fr.fn["dem"])
        return base
    def check_access(self, st, p, size, what, inst):
        if not isinstance(p, Ptr): raise Unsupported("access through %r" % (p,))
        r = st.mem.get(p.rid)
        if p.rid == 0 or r is None:
            if st.dry: return False
            self.prove("%s/safety/%s-null" % (self.where(st), what), st, z3.BoolVal(False))
            return False
        if not r.live:
            self.prove("%s/safety/%s-after-free" % (self.where(st), what), st, z3.BoolVal(False)); return False
        if self.safety and not st.dry:
            sz = size if not isinstance(size, int) else BV(size, 64)
            rsz = self.rsize(st, r)
            if isc(p.off) and isc(rsz) and isc(sz):
                if cval(p.off) + cval(sz) <= cval(rsz): return True
                ok = z3.BoolVal(False)
            else:
                ok = z3.And(z3.ULE(sz, rsz), z3.ULE(p.off, rsz - sz))
                if isinstance(size, z3.ExprRef): ok = z3.Or(size == 0, ok)
            self.prove("%s/safety/%s in bounds of %s" % (self.where(st), what, r.name), st, ok)
            st.assume(ok)
        return True
    def rsize(self, st, r):
        if r.owner is not None:
            n = st.ghost.get(("strlen",) + r.owner)
            if n is not None: return simp(n + (1 if what_is_str(r) else 0))
        return r.size
    def flatten(self, st, p):
        """Switch a region to byte-array representation."""
        r = st.region(p)
        if not r.cells: 
            if r.arr is None:
                r = st.wregion(p); r.arr = fresh("undef_" + r.name, ARR)
            return st.mem[p.rid]
        r = st.wregion(p)
        a = r.arr if r.arr is not None else fresh("undef_" + r.name, ARR)
        for off, (sz, v) in sorted(r.cells.items()):
            if isinstance(v, (Ptr, FnPtr)): 
                v = self.ptrint(st, v)
            if v is UNDEF: continue
            for i, b in enumerate(bytes_of(v, sz)):
                a = z3.Store(a, BV(off + i, 64), b)
        r.cells = {}; r.arr = a
        return r
    def ptrint(self, st, p):
        if isinstance(p, FnPtr): return z3.BitVec("fnaddr_" + p.name, 64)
        if p.rid == 0: return p.off
        base = z3.BitVec("base_%d" % p.rid, 64)
        st.facts.append(z3.And(z3.UGE(base, BV(4096, 64)), z3.ULE(base, BV((1 << 47), 64)), (base & 15) == 0))
        return simp(base + p.off)
    def int2ptr(self, st, v):
        """the address of a region (plus an offset), read back as a pointer"""
        args = v.children() if z3.is_app_of(v, z3.Z3_OP_BADD) else [v]
        b = [a for a in args if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and re.fullmatch(r"base_\d+", a.decl().name())]
        if len(b) != 1: return None
        rid = int(b[0].decl().name()[5:])
        return Ptr(rid, simp(v - b[0])) if rid in st.mem else None
    def load(self, st, p, size, kind="int", check=True, inst=None):
        if check and not self.check_access(st, p, size, "read", inst):
            raise PathEnd("bad access")
        r = st.region(p)
        if r is None: raise Unsupported("contract read through null")
        if isc(p.off):
            o = cval(p.off)
            c = r.cells.get(o)
            if c is not None and c[0] == size:
                v = c[1]
                return conv(self, st, v, size, kind)
            # overlapping?
            ov = [k for k in r.cells if k < o + size and o < k + r.cells[k][0]]
            if not ov:
                if r.arr is None:
                    # uninitialised memory: arbitrary value, remembered
                    if kind == "ptr": raise Unsupported("read of uninitialised pointer in %s" % r.name)
                    v = fresh("undef_" + r.name, 8 * size)
                    r = st.wregion(p); r.cells[o] = (size, v)
                    return conv(self, st, v, size, kind)
                if kind == "ptr":
                    if r.kind == "zero": return NULL
                    raise Unsupported("pointer load from symbolic bytes of %s+%d" % (r.name, o))
                v = self.arr_read(r.arr, p.off, size)
                return conv(self, st, v, size, kind)
            # assemble bytes
            bs = []
            for i in range(size):
                b = None
                for k in ov:
                    csz, cv = r.cells[k]
                    if k <= o + i < k + csz:
                        if isinstance(cv, (Ptr, FnPtr)): cv = self.ptrint(st, cv)
                        if cv is UNDEF: cv = fresh("undef", 8 * csz)
                        b = bytes_of(cv, csz)[o + i - k]
                if b is None:
                    b = z3.Select(r.arr, BV(o + i, 64)) if r.arr is not None else fresh("undef", 8)
                bs.append(b)
            v = simp(z3.Concat(*reversed(bs))) if size > 1 else bs[0]
            return conv(self, st, v, size, kind)
        if kind == "ptr": 
            # array of pointers with symbolic index: fork on the candidate cells
            raise Unsupported("pointer load at symbolic offset in %s" % r.name)
        if r.cells or r.arr is None: r = self.flatten(st, p)
        return conv(self, st, self.arr_read(r.arr, p.off, size), size, kind)
    def arr_read(self, arr, off, size):
        bs = [z3.Select(arr, simp(off + BV(i, 64)) if i else off) for i in range(size)]
        v = z3.Concat(*reversed(bs)) if size > 1 else bs[0]
        return simp(v)
    def store(self, st, p, size, v, check=True, inst=None):
        if check and not self.check_access(st, p, size, "write", inst):
            raise PathEnd("bad access")
        r = st.wregion(p)
        if check and r.ro: 
            self.prove("%s/safety/write to constant" % self.where(st), st, z3.BoolVal(False)); raise PathEnd("ro")
        if isc(p.off):
            o = cval(p.off)
            if st.wlog is not None: st.wlog.add((p.rid, o, size))
            ov = [k for k in r.cells if k < o + size and o < k + r.cells[k][0]]
            if ov and not (len(ov) == 1 and ov[0] == o and r.cells[o][0] == size):
                for k in ov:
                    csz, cv = r.cells.pop(k)
                    if o <= k and k + csz <= o + size: continue
                    if isinstance(cv, (Ptr, FnPtr)): cv = self.ptrint(st, cv)
                    if cv is UNDEF: cv = fresh("undef", 8 * csz)
                    for i, b in enumerate(bytes_of(cv, csz)):
                        if not (o <= k + i < o + size): r.cells[k + i] = (1, b)
            if r.arr is not None and r.kind == "buf" and not isinstance(v, (Ptr, FnPtr)) and size <= 8 and not r.cells:
                a = r.arr
                for i, b in enumerate(bytes_of(v, size)): a = z3.Store(a, BV(o + i, 64), b)
                r.arr = a
            else:
                r.cells[o] = (size, v)
            return
        if st.wlog is not None: st.wlog.add((p.rid, "*", 0))
        if isinstance(v, (Ptr, FnPtr)): raise Unsupported("pointer store at symbolic offset")
        if r.cells or r.arr is None: r = self.flatten(st, p)
        a = r.arr
        for i, b in enumerate(bytes_of(v, size)): a = z3.Store(a, simp(p.off + i), b)
        r.arr = a
    def memcpy(self, st, d, s, n, check=True):
        n = simp(n) if not isinstance(n, int) else BV(n, 64)
        if isc(n) and cval(n) == 0: return
        if check:
            if not self.check_access(st, s, n, "copy source", None): raise PathEnd("bad")
            if not self.check_access(st, d, n, "copy target", None): raise PathEnd("bad")
        if isc(n) and isc(d.off) and isc(s.off):
            N = cval(n); so = cval(s.off); do = cval(d.off)
            rs = st.region(s)
            inside = [k for k in rs.cells if so <= k and k + rs.cells[k][0] <= so + N]
            partial = [k for k in rs.cells if k < so + N and so < k + rs.cells[k][0] and k not in inside]
            if N <= 4096 and not partial and (rs.arr is None or N - sum(rs.cells[k][0] for k in inside) <= 256):
                items = [(k - so, rs.cells[k]) for k in inside]
                cov = set()
                for k in inside: cov.update(range(k, k + rs.cells[k][0]))
                for i in range(so, so + N):
                    if i not in cov and rs.arr is not None: items.append((i - so, (1, simp(z3.Select(rs.arr, BV(i, 64))))))
                rd = st.wregion(d)
                if rs.arr is None:  # bytes not covered are undefined in the source; leave target cells there undefined
                    for k in [k for k in rd.cells if do <= k and k + rd.cells[k][0] <= do + N]: del rd.cells[k]
                for o, (sz, v) in items: self.store(st, Ptr(d.rid, do + o), sz, v, check=False)
                if st.wlog is not None: st.wlog.add((d.rid, do, N))
                return
            if N <= 64:
                vals = [self.load(st, padd(s, i), 1, check=False) for i in range(N)]
                for i, v in enumerate(vals): self.store(st, padd(d, i), 1, v, check=False)
                return
        rs = self.flatten(st, s); sa = rs.arr
        rd = self.flatten(st, d)
        i = z3.BitVec("i!cp", 64)
        rel = i - d.off
        na = z3.Lambda([i], z3.If(z3.ULT(rel, n), z3.Select(sa, rel + s.off), z3.Select(rd.arr, i)))
        rd = st.wregion(d); rd.arr = na
        if st.wlog is not None: st.wlog.add((d.rid, "*", 0))
    def memset(self, st, d, v, n):
        n = simp(n)
        if isc(n) and cval(n) == 0: return
        if not self.check_access(st, d, n, "fill", None): raise PathEnd("bad")
        if isc(n) and isc(d.off) and cval(n) <= 4096:
            N = cval(n); do = cval(d.off); rd = st.wregion(d)
            if cval(v) == 0 if isc(v) else False:
                # zero fill: keep it as cells lazily -> zero array background when whole region
                if do == 0 and isc(rd.size) and N == cval(rd.size):
                    rd.cells = {}; rd.arr = z3.K(z3.BitVecSort(64), BV(0, 8)); rd.kind = "zero" if rd.kind != "buf" else "buf"
                    if st.wlog is not None: st.wlog.add((d.rid, "*", 0))
                    return
            if N <= 64:
                for i in range(N): self.store(st, padd(d, i), 1, v, check=False)
                return
        rd = self.flatten(st, d); i = z3.BitVec("i!ms", 64)
        old = rd.arr
        na = z3.Lambda([i], z3.If(z3.ULT(i - d.off, n), v, z3.Select(old, i)))
        rd = st.wregion(d); rd.arr = na
        if st.wlog is not None: st.wlog.add((d.rid, "*", 0))
    # ---- globals --------------------------------------------------------------------------------
    reals = False   # True: doubles are mathematical reals (stated as an assumption by the contract)
    def fpconst(self, bits):
        if not self.reals: return z3.fpBVToFP(BV(bits, 64), F64)
        import struct, fractions
        fr = fractions.Fraction(struct.unpack("<d", struct.pack("<Q", bits))[0])
        return z3.RatVal(fr.numerator, fr.denominator)
    def gptr(self, st, name, off):
        rid = self.globals_rid.get(name)
        if rid is None:
            self.nrid += 1; rid = self.nrid; self.globals_rid[name] = rid
        if rid not in st.mem:
            g = self.m.globals.get(name)
            if g is None: raise Unsupported("global " + name)
            r = Region(rid, name, BV(g["size"], 64), None, "obj"); r.ro = g["const"]
            if "cells" in g and g["const"]:
                hexes = [c for c in g["cells"]]
                for o, sz, v in g["cells"]:
                    if v[0] == "hex":
                        bs = bytes.fromhex(v[1])
                        if len(bs) > 64 and len(g["cells"]) == 1:
                            a = z3.K(z3.BitVecSort(64), BV(0, 8))
                            for i, b in enumerate(bs): a = z3.Store(a, BV(i, 64), BV(b, 8))
                            r.arr = a
                        else:
                            for i, b in enumerate(bs): r.cells[o + i] = (1, BV(b, 8))
                    elif v[0] == "zeros":
                        if sz <= 64:
                            for i in range(sz): r.cells[o + i] = (1, BV(0, 8))
                        else: r.arr = z3.K(z3.BitVecSort(64), BV(0, 8))
                    elif v[0] == "i": r.cells[o] = (sz, BV(int(v[2]), 8 * sz))
                    elif v[0] == "null": r.cells[o] = (sz, NULL)
                    elif v[0] == "ci2p": r.cells[o] = (sz, BV(int(v[1]), 8 * sz))
                    elif v[0] == "fn": r.cells[o] = (sz, FnPtr(v[1]))
                    elif v[0] == "g": r.cells[o] = (sz, ("lazyg", v[1], v[2]))
                    elif v[0] == "f": r.cells[o] = (sz, self.fpconst(int(v[2])))
            else:
                r.arr = z3.Const("glob_" + name, ARR)
            st.mem[rid] = r
        return Ptr(rid, off)
    # ---- values ---------------------------------------------------------------------------------
    def val(self, st, fr, v, ty=None):
        t = v[0]
        if t == "v":
            x = fr.env.get(v[1], None)
            if x is None: raise Unsupported("undefined value")
            return x
        if t == "i":
            w = v[1]
            if w == 1: return z3.BoolVal(v[2] == "1")
            return BV(int(v[2]), w)
        if t == "null": return NULL
        if t == "g": return self.gptr(st, v[1], v[2])
        if t == "fn": return FnPtr(v[1])
        if t == "undef": return self.undefval(v[1])
        if t == "zero": return self.zeroval(v[1])
        if t == "f":
            if v[1] == "double": return simp(self.fpconst(int(v[2])))
            if v[1] == "float": return simp(z3.fpBVToFP(BV(int(v[2]), 32), F32))
        if t == "ci2p": return Ptr(0, int(v[1]))
        if t == "agg": return Agg([self.val(st, fr, x) for x in v[2]])
        if t == "p2i": return self.ptrint(st, self.val(st, fr, v[1]))
        raise Unsupported("value %s" % (v,))
    def undefval(self, ty):
        if isinstance(ty, dict): return Agg([self.undefval(x) for x in ty["s"]]) if "s" in ty else UNDEF
        if ty == "i1": return fresh("undef", z3.BoolSort())
        if ty.startswith("i"): return fresh("undef", int(ty[1:]))
        return UNDEF
    def zeroval(self, ty):
        if isinstance(ty, dict):
            if "s" in ty: return Agg([self.zeroval(x) for x in ty["s"]])
            return Agg([self.zeroval(ty["a"]) for _ in range(ty["n"])])
        if ty == "i1": return z3.BoolVal(False)
        if ty == "ptr": return NULL
        if ty == "double": return z3.FPVal(0.0, F64)
        if ty == "float": return z3.FPVal(0.0, F32)
        return BV(0, int(ty[1:]))
    # ---- running --------------------------------------------------------------------------------
    def call_entry(self, st, name, args):
        f = self.m.fns[name]
        if f["decl"]: raise Unsupported("no body for " + f["dem"])
        fr = Frame(f)
        for i, a in enumerate(args): fr.env[i] = a
        st.frames.append(fr)
        return fr
    def run(self, name, args, st, loops=(), stop=None):
        """Execute function `name` from state st; returns the list of final states (kind ret / throw)."""
        self.loopspecs = list(loops)
        self.fn_under_contract.add(self.m.fns[name]["dem"])
        s = st.clone()
        base = len(s.frames)
        self.call_entry(s, name, args)
        return self.explore([s], base)
    def explore(self, work, base, loopstop=None):
        done = []
        work = list(work); steps = 0
        while work:
            s = work.pop()
            if self.deadline and time.time() > self.deadline: raise Unsupported("time budget exhausted")
            try:
                while True:
                    r = self.step(s, base, loopstop)
                    steps += 1
                    if steps > self.max_steps: raise Unsupported("too many steps")
                    if r is None: continue
                    if r == "done":
                        done.append(s)
                        if len(done) > self.max_paths: raise Unsupported("too many paths")
                        break
                    # list of successor states
                    work.extend(r); break
            except PathEnd as e:
                if e.keep: s.kind = e.keep; done.append(s)
        return done
    def branch(self, s, cond, tb, fb):
        """Fork on cond; tb/fb are functions state->None applied to the successor."""
        c = simp(tobool(cond))
        if z3.is_true(c): tb(s); return None
        if z3.is_false(c): fb(s); return None
        nt = self.feasible(s, c); nf = self.feasible(s, z3.Not(c))
        if nt and not nf: s.pc.append(c); tb(s); return None
        if nf and not nt: s.pc.append(simp(z3.Not(c))); fb(s); return None
        if not nt and not nf: raise PathEnd("infeasible")
        s2 = s.clone()
        s.pc.append(c); tb(s)
        s2.pc.append(simp(z3.Not(c))); fb(s2)
        return [s2, s]
    def goto(self, s, target):
        fr = s.frames[-1]
        fr.prev = fr.bb; fr.bb = target; fr.ip = 0
    def step(self, s, base, loopstop):
        fr = s.frames[-1]
        blk = fr.fn["blocks"][fr.bb]
        if fr.ip == 0 and fr.inhead: fr.inhead = False
        elif fr.ip == 0:
            r = self.enter_block(s, fr, base, loopstop)
            if r is not None: return r
            fr = s.frames[-1]; blk = fr.fn["blocks"][fr.bb]
        n = len(blk)
        while fr.ip < n:
            inst = blk[fr.ip]; op = inst["op"]
            h = OPS.get(op)
            if h is None: raise Unsupported("instruction %s" % op)
            r = h(self, s, fr, inst)
            if r is CONT:
                fr.ip += 1; continue
            if r is JUMP: return None
            if r is RETURN:
                return self.do_return(s, base)
            if r is UNWIND:
                return self.unwind(s, base)
            return r        # list of states
        raise Unsupported("fell off block")
    def do_return(self, s, base):
        fr = s.frames.pop()
        rv = s.ret
        for rid in fr.allocas:
            if rid in s.mem:
                r = s.mem[rid].clone(); r.live = False; s.mem[rid] = r
        if len(s.frames) <= base:
            s.kind = "ret"; return "done"
        c = s.frames[-1]; inst = c.fn["blocks"][c.bb][c.ip]
        if "ty" in inst and rv is not None: c.env[inst["id"]] = rv
        if inst["op"] == "invoke": self.goto(s, inst["n"])
        else: c.ip += 1
        # a return leaves every loop of the callee: nothing to do
        return None
    def unwind(self, s, base):
        """s.exc is set; find a handler."""
        while len(s.frames) > base:
            fr = s.frames[-1]
            inst = fr.fn["blocks"][fr.bb][fr.ip]
            if inst["op"] == "invoke" and not getattr(s, "_in_resume", False):
                self.goto(s, inst["u"]); return None
            s._in_resume = False
            s.frames.pop()
            for rid in fr.allocas:
                if rid in s.mem:
                    r = s.mem[rid].clone(); r.live = False; s.mem[rid] = r
        s.kind = "throw"
        return "done"
    def eval_phis(self, s, fr, prev):
        blk = fr.fn["blocks"][fr.bb]; new = []
        for inst in blk:
            if inst["op"] != "phi": break
            for b, v in inst["in"]:
                if b == prev: new.append((inst["id"], self.val(s, fr, v), inst["ty"])); break
            else: raise Unsupported("phi edge")
        return new
    def enter_block(self, s, fr, base, loopstop):
        # leave loops that do not contain this block
        while fr.loops and fr.bb not in fr.loops[-1].L["b"]:
            rec = fr.loops.pop()
            if rec.dry: raise PathEnd("left loop (dry)")
        prev = fr.prev
        phis = self.eval_phis(s, fr, prev) if prev is not None else []
        L = fr.fn["hdr"].get(fr.bb)
        nphi = 0
        for inst in fr.fn["blocks"][fr.bb]:
            if inst["op"] == "phi": nphi += 1
            else: break
        if L is not None:
            if fr.loops and fr.loops[-1].L is L:
                rec = fr.loops[-1]          # back edge of a cut loop
                if rec.dry:
                    s.kind = "back"; s.trace.append([(i, v) for i, v, _ in phis])
                    raise PathEnd("back", keep="back")
                self.loop_back(s, fr, rec, phis)
                raise PathEnd("back edge")
            inside = prev in L["b"]
            if not inside:
                fr.counts[L["h"]] = 0
                spec = self.find_spec(fr.fn, L, s)
                if spec is not None:
                    self.loop_enter(s, fr, L, spec, phis, nphi)
                    fr.ip = nphi
                    return None
            fr.counts[L["h"]] = fr.counts.get(L["h"], 0) + 1
            if fr.counts[L["h"]] > self.unroll_limit:
                if self.bmc: raise PathEnd("bmc bound", keep=None)
                raise Unsupported("loop without invariant in %s" % short(fr.fn["dem"]))
        for i, v, _ in phis: fr.env[i] = v
        fr.ip = nphi
        return None
    def find_spec(self, fn, L, s):
        if self.bmc: return None
        d = sum(len(f.loops) for f in s.frames)
        for sp in self.loopspecs:
            if sp.depth is not None and sp.depth != d: continue
            if sp.match is None or sp.match(fn, L): return sp
        return None
    # ---- loop cutting ---------------------------------------------------------------------------
    def havoc(self, s, fr, mods, entry_phis, ivs, k):
        """Forget everything in mods; loop-carried locals become p0 + c*k when c is known, else fresh."""
        env = {}
        for (i, v0, ty) in entry_phis:
            c = ivs.get(("phi", i))
            if isinstance(v0, Ptr):
                off = v0.off + trunc(k, 64) * BV(c, 64) if c is not None else fresh("loopoff", 64)
                env[i] = Ptr(v0.rid, simp(off))
            elif isinstance(v0, (FnPtr, Undef, Agg)):
                if isinstance(v0, Undef): env[i] = v0
                elif isinstance(v0, FnPtr) : env[i] = v0
                else: raise Unsupported("loop-carried aggregate")
            elif z3.is_bool(v0): env[i] = fresh("loopvar", z3.BoolSort())
            elif z3.is_bv(v0):
                env[i] = simp(v0 + trunc(k, v0.size()) * BV(c, v0.size())) if c is not None else fresh("loopvar", v0.size())
            else: env[i] = fresh("loopvar", v0.sort())
        for m in mods:
            if m[0] == "ghost":
                g = s.ghost.get(m[1])
                c = ivs.get(m)
                if z3.is_expr(g) and c is not None: s.ghost[m[1]] = simp(g + trunc(k, g.size()) * BV(c, g.size()))
                elif z3.is_expr(g): s.ghost[m[1]] = fresh("g_" + "_".join(map(str, m[1])), g.sort())
                elif callable(getattr(g, "havoc", None)): s.ghost[m[1]] = g.havoc(s)
                else: raise Unsupported("ghost havoc %s" % (m[1],))
            else:
                rid, o, sz = m
                if rid not in s.mem: continue
                r = s.mem[rid].clone(); s.mem[rid] = r
                if o == "*":
                    if r.cells or r.arr is None: r = self.flatten(s, Ptr(rid, 0))
                    r = s.mem[rid].clone(); r.arr = fresh("loopmem_" + r.name, ARR); s.mem[rid] = r
                else:
                    old = r.cells.get(o)
                    c = ivs.get(("mem", rid, o))
                    if old is not None and old[0] == sz:
                        v0 = old[1]
                        if isinstance(v0, Ptr):
                            r.cells[o] = (sz, Ptr(v0.rid, simp(v0.off + k * BV(c, 64)) if c is not None else fresh("loopoff", 64)))
                        elif isinstance(v0, FnPtr): raise Unsupported("loop-modified function pointer")
                        elif v0 is UNDEF: r.cells[o] = (sz, fresh("loopmem", 8 * sz))
                        elif z3.is_fp(v0): r.cells[o] = (sz, fresh("loopmem", v0.sort()))
                        else:
                            r.cells[o] = (sz, simp(v0 + trunc(k, v0.size()) * BV(c, v0.size())) if c is not None else fresh("loopmem_" + r.name + "_%d" % o, 8 * sz))
                    else:
                        for kk in [kk for kk in r.cells if kk < o + sz and o < kk + r.cells[kk][0]]: 
                            csz, cv = r.cells[kk]
                            if isinstance(cv, (Ptr, FnPtr)): raise Unsupported("loop-modified pointer cell")
                            r.cells[kk] = (csz, fresh("loopmem", 8 * csz))
                        cov = set()
                        for kk in r.cells: cov.update(range(kk, kk + r.cells[kk][0]))
                        if all(x not in cov for x in range(o, o + sz)): 
                            if sz in (1, 2, 4, 8): r.cells[o] = (sz, fresh("loopmem", 8 * sz))
                            else:
                                for x in range(o, o + sz): r.cells[x] = (1, fresh("loopmem", 8))
                        else:
                            for x in range(o, o + sz):
                                if x not in cov: r.cells[x] = (1, fresh("loopmem", 8))
        return env
    def loop_enter(self, s, fr, L, spec, phis, nphi):
        k = fresh("k", 64)
        base_frames = len(s.frames)
        s0 = s.clone()
        mods = set(); ivs = {}
        entry = phis
        # ---- discover what one iteration may change (dry runs to a fixpoint); pointers are taken to stay until an iteration moves them
        moved = set()
        for it in range(20):
            d = s0.clone(); dfr = d.frames[-1]
            stay = {("phi", i): 0 for i, v0, _ in entry if isinstance(v0, Ptr) and ("phi", i) not in moved}
            stay.update({("mem", m[0], m[1]): 0 for m in mods if m[0] != "ghost" and m[1] != "*" and ("mem", m[0], m[1]) not in moved and m[0] in s0.mem and isinstance(s0.mem[m[0]].cells.get(m[1], (0, None))[1], Ptr)})
            env = self.havoc(d, dfr, mods, entry, stay, k)
            dfr.env.update(env)
            rec = LoopRec(); rec.L = L; rec.k = k; rec.spec = spec; rec.dry = True; rec.entry = entry; rec.ivs = {}
            dfr.loops.append(rec); dfr.ip = nphi; dfr.inhead = nphi == 0
            d.wlog = set(); d.dry = True; d.trace = []; d.ghost[("loopk", spec.name)] = k
            h = HeadCtx(self, d, k, s0, env, entry, L, dfr)
            d.facts.extend(spec.facts(h))
            for _, f in spec.inv(h): d.assume(f)
            g0 = dict(d.ghost); m0 = dict(d.mem)
            saved = (self.loopspecs,)
            ends = self.explore([d], base_frames - 1)
            backs = [e for e in ends if e.kind == "back"]
            new = set()
            for e in backs:
                for w in e.wlog:
                    if w[0] in s0.mem: new.add(w)
                for key, g in e.ghost.items():
                    if key[0] == "loopk": continue
                    if key in g0 and not same(g, g0[key]): new.add(("ghost", key))
                    elif key not in g0 and key[0] in getattr(self, "persist_ghost", ()): new.add(("ghost", key))
            new = norm_mods(new | mods)
            gone = set()
            for w in stay:
                for e in backs:
                    if w[0] == "phi": nv, hv = dict(e.trace[-1])[w[1]], env[w[1]]
                    else:
                        c1, c0 = e.mem[w[1]].cells.get(w[2]), m0[w[1]].cells.get(w[2])
                        nv, hv = (c1[1], c0[1]) if c1 is not None and c0 is not None and c1[0] == c0[0] else (None, Ptr(0, 0))
                    if self.diff(e, nv, hv) != 0: gone.add(w)
            if new == mods and not gone: break
            mods = new; moved |= gone
        else: raise Unsupported("loop frame does not stabilise")
        # ---- induction variables: constant difference on every back edge
        if backs:
            for idx, (i, v0, ty) in enumerate(entry):
                ds = set()
                for e in backs:
                    nv = dict(e.trace[-1])[i]; hv = env[i]
                    ds.add(self.diff(e, nv, hv))
                if len(ds) == 1 and None not in ds: ivs[("phi", i)] = ds.pop()
            for m in mods:
                if m[0] == "ghost":
                    g = g0.get(m[1])
                    if z3.is_expr(g) and z3.is_bv(g):
                        ds = {self.diff(e, e.ghost[m[1]], g) for e in backs}
                        if len(ds) == 1 and None not in ds: ivs[m] = ds.pop()
                    continue
                if m[1] == "*": continue
                c0 = m0[m[0]].cells.get(m[1])
                if c0 is None or c0[0] != m[2] or c0[1] is UNDEF: continue
                ds = set()
                for e in backs:
                    c1 = e.mem[m[0]].cells.get(m[1])
                    ds.add(self.diff(e, c1[1], c0[1]) if c1 is not None and c1[0] == c0[0] else None)
                if len(ds) == 1 and None not in ds: ivs[("mem", m[0], m[1])] = ds.pop()
        # pointers that move to another region inside the loop are out of reach
        for e in backs:
            for i, v0, ty in entry:
                nv = dict(e.trace[-1])[i]
                if isinstance(v0, Ptr) and (not isinstance(nv, Ptr) or nv.rid != v0.rid): raise Unsupported("loop-carried pointer changes object")
                if isinstance(v0, FnPtr) and not same(nv, v0): raise Unsupported("loop-carried function pointer changes")
        rec = LoopRec(); rec.L = L; rec.k = k; rec.spec = spec; rec.dry = False; rec.entry = entry; rec.ivs = ivs
        rec.h0 = s0; rec.data = {}
        # ---- candidate bounds (Houdini)
        cands = self.candidates(s0, fr, L, entry, ivs, k, mods) if not s.dry else []
        cands = [(lambda st, kk, env, c=c: c[1](env)) if isinstance(c, tuple) else (lambda st, kk, env, c=c: z3.substitute(c, (k, kk))) for c in cands]
        if not s.dry:
            for m in mods:     # bytes that only ever hold 0 or 1 (bool members)
                if m[0] != "ghost" and m[1] != "*" and m[2] == 1 and m[0] in s0.mem:
                    def boolcell(st, kk, env, m=m):
                        c = st.mem[m[0]].cells.get(m[1])
                        if c is None: return z3.ULE(self.load(st, Ptr(m[0], m[1]), 1, check=False), BV(1, 8))
                        return z3.ULE(c[1], BV(1, 8)) if z3.is_bv(c[1]) else z3.BoolVal(False)
                    cands.append(boolcell)
        if spec.auto is not None and not s.dry: cands += self.auto_candidates(s0, fr, L, spec, entry, ivs, mods)
        cands = self.houdini(s0, fr, L, spec, entry, ivs, k, mods, cands, nphi, base_frames) if cands else []
        rec.data["cands"] = cands
        # ---- obligations at entry
        if not s.dry:
            e0 = s0.clone()
            h0 = HeadCtx(self, e0, BV(0, 64), s0, {i: v for i, v, _ in entry}, entry, L, e0.frames[-1])
            ef = spec.facts(h0)
            for nm, f in spec.inv(h0):
                self.prove("%s/%s/entry/%s" % (self.where(s), spec.name, nm), e0, f, extra=ef)
        # ---- arbitrary iteration
        env = self.havoc(s, fr, mods, entry, ivs, k)
        fr.env.update(env)
        fr.loops.append(rec)
        h = HeadCtx(self, s, k, s0, env, entry, L, fr)
        s.facts.extend(spec.facts(h))
        for _, f in spec.inv(h): s.assume(f)
        for c in cands: s.assume(c(s, k, env))
        for j, f in enumerate(spec.hints(h)):
            self.prove("%s/%s/instance %d of the invariant" % (self.where(s), spec.name, j), s, f)
            s.assume(f)
        if s.wlog is not None: s.wlog |= {m for m in mods if m[0] != "ghost"}
        s.ghost[("loopk", spec.name)] = k
        if not s.dry: self.cover[("%s%s/%s" % (self.prefix, self.where(s), spec.name))] = (list(s.pc), list(s.facts))
    def diff(self, e, nv, hv):
        if isinstance(hv, Ptr):
            if not isinstance(nv, Ptr) or nv.rid != hv.rid: return None
            d = simp(nv.off - hv.off)
        elif z3.is_bv(hv) and z3.is_bv(nv): d = simp(nv - hv)
        else: return None
        if isc(d):
            return d.as_signed_long()
        return None
    def loop_back(self, s, fr, rec, phis):
        k1 = simp(rec.k + 1)
        if s.dry: return
        env = {i: v for i, v, _ in phis}
        fr.env.update(env)
        h = HeadCtx(self, s, k1, rec.h0, env, rec.entry, rec.L, fr)
        ef = rec.spec.facts(h)
        for nm, f in rec.spec.inv(h):
            self.prove("%s/%s/preserved/%s" % (self.where(s), rec.spec.name, nm), s, f, extra=ef)
    def candidates(self, s0, fr, L, entry, ivs, k, mods):
        """k <= bound for the loop-invariant values that induction variables are compared with."""
        out = []
        ent = {i: v for i, v, _ in entry}
        phi_c = {i: ivs.get(("phi", i)) for i, _, _ in entry}
        for i, v0, _ in entry:
            c = phi_c[i]
            if c == -1 and z3.is_bv(v0) and v0.size() in (32, 64):
                out.append(z3.ULE(k, z3.ZeroExt(64 - v0.size(), v0) if v0.size() < 64 else v0))
        # comparisons in the loop
        blocks = fr.fn["blocks"]
        inl = set()
        for b in L["b"]:
            for inst in blocks[b]: inl.add(inst["id"])
        def inv_val(v):
            try:
                if v[0] == "v" and v[1] in inl: return None
                return self.val(s0, s0.frames[-1], v)
            except Unsupported: return None
        def ind(v):
            if v[0] == "v" and v[1] in phi_c and phi_c[v[1]]: return v[1]
            return None
        for b in L["b"]:
            for inst in blocks[b]:
                if inst["op"] != "icmp": continue
                for x, y in ((0, 1), (1, 0)):
                    i = ind(inst["a"][x]); iv = inv_val(inst["a"][y])
                    # value defined in the loop by a load of an unmodified location is handled by spec authors
                    if i is None or iv is None: continue
                    v0 = ent[i]; c = phi_c[i]
                    if isinstance(v0, Ptr) and isinstance(iv, Ptr) and v0.rid == iv.rid and c > 0:
                        cur = v0.off + k * BV(c, 64)
                        out.append(z3.ULE(cur, iv.off)); out.append(z3.ULE(k, iv.off - v0.off))
                    elif z3.is_bv(v0) and z3.is_bv(iv) and c > 0:
                        cur = v0 + trunc(k, v0.size()) * BV(c, v0.size())
                        out.append(z3.ULE(cur, iv)); out.append(cur <= iv)
                        if v0.size() == 64 and c == 1: out.append(z3.ULE(k, iv - v0))
                        if v0.size() == 32 and c == 1: out.append(z3.ULE(k, z3.ZeroExt(32, iv - v0)))
                    elif z3.is_bv(v0) and z3.is_bv(iv) and c < 0:
                        cur = v0 + trunc(k, v0.size()) * BV(c, v0.size())
                        out.append(z3.UGE(cur, iv)); out.append(cur >= iv)
                        if c == -1: out.append(z3.ULE(k, zx64(v0 - iv)))
        # locals that change irregularly: constant differences between them, and the bounds they are compared with
        irr = [(i, v0) for i, v0, _ in entry if phi_c[i] is None and (isinstance(v0, Ptr) or (z3.is_bv(v0) and v0.size() >= 32))]
        cur = lambda env, i: (lambda v: v.off if isinstance(v, Ptr) else sx64(v))(env[i])
        for a in range(len(irr)):
            for b in range(a):
                (i, x), (j, y) = irr[a], irr[b]
                d0 = cur({i: x}, i) - cur({j: y}, j)
                out.append(("env", lambda env, i=i, j=j, d0=d0: cur(env, i) - cur(env, j) == d0))
        for b in L["b"]:
            for inst in blocks[b]:
                if inst["op"] != "icmp": continue
                for x, y in ((0, 1), (1, 0)):
                    v = inst["a"][x]; iv = inv_val(inst["a"][y])
                    if iv is None or v[0] != "v" or v[1] not in dict(irr): continue
                    i = v[1]; v0 = ent[i]
                    if isinstance(v0, Ptr) and isinstance(iv, Ptr) and v0.rid == iv.rid: out.append(("env", lambda env, i=i, iv=iv: z3.ULE(env[i].off, iv.off)))
                    elif z3.is_bv(v0) and z3.is_bv(iv) and v0.size() == iv.size():
                        out.append(("env", lambda env, i=i, iv=iv: z3.ULE(env[i], iv)))
                        out.append(("env", lambda env, i=i, iv=iv: z3.ULE(env[i], iv + 1)))
        for i, v0, _ in entry:
            c = phi_c[i]
            if c and z3.is_bv(v0) and v0.size() == 32 and c > 0:
                out.append(z3.ULE(k, BV(0x7fffffff, 64)))
        return dedup([simp(x) for x in out if not isinstance(x, tuple)]) + [x for x in out if isinstance(x, tuple)]
    def auto_candidates(self, s0, fr, L, spec, entry, ivs, mods):
        """For loops driven by a specification transducer: each irregular local (or memory cell) may be a constant or a
        component of the specification state in each phase. All combinations are candidates; Houdini keeps what is inductive."""
        out = []
        def phase(st, kk, env):
            return spec.auto(HeadCtx(self, st, kk, s0, env, entry, L, st.frames[-1]))
        _, values, comps0 = phase(s0, BV(0, 64), {i: v for i, v, _ in entry})
        def add(get, v0):
            isptr = isinstance(v0, Ptr)
            w = 1 if z3.is_bool(v0) else 64 if isptr else v0.size() if z3.is_bv(v0) else None
            if w is None: return
            def val(st, env):
                v = get(st, env)
                if v is None: return None
                if isinstance(v, Ptr): return v.off
                return z3.If(v, BV(1, 1), BV(0, 1)) if z3.is_bool(v) else v
            base = v0.off if isptr else None
            consts = sorted({0, 1, 2, 3, (1 << w) - 1} | ({cval(simp(v0))} if z3.is_bv(v0) and isc(simp(v0)) else set()))
            consts = [c for c in consts if c < (1 << w)] if not isptr else []
            for p in values:
                for c in consts:
                    def f(st, kk, env, p=p, c=c):
                        v = val(st, env); ph = phase(st, kk, env)[0]
                        return z3.BoolVal(False) if v is None or v.size() != w else z3.Implies(ph == p, v == BV(c, w))
                    out.append(f)
                for j in range(len(comps0)):
                    def f(st, kk, env, p=p, j=j):
                        v = val(st, env); ph, _, cs = phase(st, kk, env); c = cs[j]
                        if v is None: return z3.BoolVal(False)
                        if z3.is_bool(c): c = z3.If(c, BV(1, 1), BV(0, 1))
                        if c.size() < v.size(): c = z3.ZeroExt(v.size() - c.size(), c)
                        elif c.size() > v.size(): c = z3.Extract(v.size() - 1, 0, c)
                        return z3.Implies(ph == p, v == (base + c if isptr else c))
                    out.append(f)
        for i, v0, _ in entry:
            if ("phi", i) in ivs or isinstance(v0, (FnPtr, Agg, Undef)): continue
            add(lambda st, env, i=i: env.get(i), v0)
        for m in sorted((m for m in mods if m[0] != "ghost" and m[1] != "*"), key=str):
            if ("mem", m[0], m[1]) in ivs or m[2] not in (1, 2, 4, 8) or m[0] not in s0.mem: continue
            c0 = s0.mem[m[0]].cells.get(m[1])
            if c0 is not None and (c0[0] != m[2] or c0[1] is UNDEF): continue
            v0 = c0[1] if c0 is not None else self.load(s0, Ptr(m[0], m[1]), m[2], check=False)
            def get(st, env, m=m):
                c = st.mem[m[0]].cells.get(m[1]) if m[0] in st.mem else None
                if c is None: return self.load(st, Ptr(m[0], m[1]), m[2], check=False)
                return c[1] if c[0] == m[2] and c[1] is not UNDEF else None
            add(get, v0)
        return out
    def houdini(self, s0, fr, L, spec, entry, ivs, k, mods, cands, nphi, base_frames):
        def falsified(e, cs, kk, env):
            """indices of the candidates that can fail in state e"""
            fs = [c(e, kk, env) for c in cs]; bad = set()
            live = [i for i in range(len(fs)) if not z3.is_true(simp(fs[i]))]
            s = z3.Solver(); s.set("timeout", 4000)
            for c in list(e.pc) + list(e.facts): s.add(c)
            while live:
                s.push(); s.add(z3.Or(*[z3.Not(fs[i]) for i in live])); r = s.check(); self.nqueries += 1
                if r == z3.unsat: s.pop(); break
                got = set()
                if r == z3.sat:
                    m = s.model(); got = {i for i in live if z3.is_false(m.eval(fs[i], model_completion=True))}
                s.pop()
                if not got: got = {i for i in live if self.feasible(e, z3.Not(fs[i]))}
                if not got: break
                bad |= got; live = [i for i in live if i not in got]
            return bad
        env0 = {i: v for i, v, _ in entry}
        e0 = s0.clone(); h0 = HeadCtx(self, e0, BV(0, 64), s0, env0, entry, L, e0.frames[-1])
        e0.facts.extend(spec.facts(h0))
        bad = falsified(e0, cands, BV(0, 64), env0)
        cands = [c for i, c in enumerate(cands) if i not in bad]
        while cands:
            d = s0.clone(); dfr = d.frames[-1]
            env = self.havoc(d, dfr, mods, entry, ivs, k)
            dfr.env.update(env)
            rec = LoopRec(); rec.L = L; rec.k = k; rec.spec = spec; rec.dry = True; rec.entry = entry; rec.ivs = {}
            dfr.loops.append(rec); dfr.ip = nphi; dfr.inhead = nphi == 0
            d.wlog = set(); d.dry = True; d.trace = []; d.ghost[("loopk", spec.name)] = k
            h = HeadCtx(self, d, k, s0, env, entry, L, dfr)
            d.facts.extend(spec.facts(h))
            for _, f in spec.inv(h): d.assume(f)
            for c in cands: d.assume(c(d, k, env))
            ends = [e for e in self.explore([d], base_frames - 1) if e.kind == "back"]
            bad = set()
            for e in ends:
                env1 = dict(e.trace[-1]); ix = [i for i in range(len(cands)) if i not in bad]
                he = HeadCtx(self, e, simp(k + 1), s0, env1, entry, L, e.frames[-1]) if e.frames else None
                if he is not None: e.facts.extend(spec.facts(he))
                bad |= {ix[q] for q in falsified(e, [cands[i] for i in ix], k + 1, env1)}
            if not bad: return cands
            cands = [c for i, c in enumerate(cands) if i not in bad]
        return cands

def what_is_str(r): return r.kind == "str"
def trunc(k, w): return k if w == 64 else z3.Extract(w - 1, 0, k) if w < 64 else z3.ZeroExt(w - 64, k)
def sx64(v): return v if v.size() == 64 else z3.SignExt(64 - v.size(), v)
def zx64(v): return v if v.size() == 64 else z3.ZeroExt(64 - v.size(), v)
def dedup(l):
    out = []; seen = set()
    for x in l:
        if z3.is_true(x): continue
        if x.get_id() not in seen: seen.add(x.get_id()); out.append(x)
    return out
def same(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.rid == b.rid and z3.is_true(simp(a.off == b.off))
    if isinstance(a, FnPtr) and isinstance(b, FnPtr): return a.name == b.name
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
    return a == b
def norm_mods(ms):
    star = {m[0] for m in ms if m[0] != "ghost" and m[1] == "*"}
    return {m for m in ms if m[0] == "ghost" or m[1] == "*" or m[0] not in star}
def short(dem):
    d = re.sub(r"\(.*\)( const)?$", "", dem)
    d = re.sub(r"<.*>", "<>", d)
    return d

class PathEnd(Exception):
    def __init__(self, why, keep=None): self.why = why; self.keep = keep

CONT, JUMP, RETURN, UNWIND = "cont", "jump", "return", "unwind"

def conv(eng, st, v, size, kind):
    if isinstance(v, tuple) and v and v[0] == "lazyg":
        return eng.gptr(st, v[1], v[2])
    if kind == "ptr":
        if isinstance(v, (Ptr, FnPtr)): return v
        if v is UNDEF: raise Unsupported("undefined pointer")
        if z3.is_bv(v):
            v = simp(v)
            if isc(v): return Ptr(0, cval(v)) 
            q = eng.int2ptr(st, v) if hasattr(eng, "int2ptr") else None
            if q is not None: return q
        raise Unsupported("integer used as pointer")
    if isinstance(v, (Ptr, FnPtr)):
        if kind == "int": return eng.ptrint(st, v)
        raise Unsupported("pointer read as %s" % kind)
    if v is UNDEF: v = fresh("undef", 8 * size)
    if z3.is_expr(v) and z3.is_real(v):
        if kind == "double": return v
        raise Unsupported("real number read as %s" % kind)
    if kind == "double": return v if z3.is_fp(v) else eng.fpconst(cval(simp(v))) if eng.reals and isc(simp(v)) else simp(z3.fpBVToFP(v, F64))
    if kind == "float": return v if z3.is_fp(v) else simp(z3.fpBVToFP(v, F32))
    if z3.is_fp(v): return simp(z3.fpToIEEEBV(v))
    return v

def kind_of(ty):
    if ty == "ptr": return "ptr"
    if ty in ("double", "float"): return ty
    if isinstance(ty, str) and ty.startswith("i"): return "int"
    raise Unsupported("type %s" % (ty,))

def op_alloca(e, s, fr, i):
    p = s.new_region("local%d" % i["id"] if "id" in i else "local", i["size"], sym=False)
    s.mem[p.rid].name = "local"
    fr.allocas.append(p.rid); fr.env[i["id"]] = p
    return CONT
def load_ty(e, s, p, ty, check=True):
    if isinstance(ty, dict) and "s" in ty:
        return Agg([load_ty(e, s, padd(p, o), t) for t, o in zip(ty["s"], ty["o"])])
    if isinstance(ty, dict) and "a" in ty:
        return Agg([load_ty(e, s, padd(p, ty["e"] * j), ty["a"]) for j in range(ty["n"])])
    w = tysize(ty)
    v = e.load(s, p, w, kind_of(ty), check)
    if ty == "i1": return simp(z3.Extract(0, 0, v) == 1)
    if ty[0] == "i" and int(ty[1:]) != 8 * w: v = simp(z3.Extract(int(ty[1:]) - 1, 0, v))
    return v
def tysize(ty):
    if ty == "ptr" or ty == "double": return 8
    if ty == "float": return 4
    if isinstance(ty, str) and ty[0] == "i": return (int(ty[1:]) + 7) // 8
    if isinstance(ty, dict) and "z" in ty: return ty["z"]
    raise Unsupported("sizeof %s" % (ty,))
def store_ty(e, s, p, ty, v):
    if isinstance(ty, dict) and "s" in ty:
        for j, (t, o) in enumerate(zip(ty["s"], ty["o"])): store_ty(e, s, padd(p, o), t, v.els[j])
        return
    if isinstance(ty, dict) and "a" in ty:
        for j in range(ty["n"]): store_ty(e, s, padd(p, ty["e"] * j), ty["a"], v.els[j])
        return
    w = tysize(ty)
    if ty == "i1": v = z3.If(v, BV(1, 8), BV(0, 8))
    elif ty[0] == "i" and v is not UNDEF and not isinstance(v, (Ptr, FnPtr)) and v.size() != 8 * w: v = z3.ZeroExt(8 * w - v.size(), v)
    e.store(s, p, w, v)
def op_load(e, s, fr, i):
    p = e.val(s, fr, i["p"])
    fr.env[i["id"]] = load_ty(e, s, p, i["ty"])
    return CONT
def op_store(e, s, fr, i):
    p = e.val(s, fr, i["p"]); v = e.val(s, fr, i["x"])
    store_ty(e, s, p, i["vt"], v)
    return CONT
def op_gep(e, s, fr, i):
    p = e.val(s, fr, i["p"])
    if isinstance(p, FnPtr): raise Unsupported("gep on fn")
    off = i["off"]; d = BV(off, 64)
    for v, sc, w in i["ix"]:
        x = e.val(s, fr, v)
        if z3.is_bool(x): x = z3.If(x, BV(1, w), BV(0, w))
        if w < 64: x = z3.SignExt(64 - w, x)
        d = d + x * BV(sc, 64)
    fr.env[i["id"]] = padd(p, simp(d))
    return CONT
def op_phi(e, s, fr, i): raise Unsupported("phi position")
def op_br(e, s, fr, i):
    if "c" not in i:
        e.goto(s, i["s"][0]); return JUMP
    c = e.val(s, fr, i["c"])
    t, f = i["s"]
    r = e.branch(s, c, lambda x: e.goto(x, t), lambda x: e.goto(x, f))
    return JUMP if r is None else r
def op_switch(e, s, fr, i):
    c = e.val(s, fr, i["c"])
    if z3.is_bool(c): c = z3.If(c, BV(1, 1), BV(0, 1))
    c = simp(c)
    w = c.size(); cases = [(int(v[2]), b) for v, b in i["cs"]]
    if isc(c):
        for v, b in cases:
            if v == cval(c): e.goto(s, b); return JUMP
        e.goto(s, i["d"]); return JUMP
    bytgt = {}
    for v, b in cases: bytgt.setdefault(b, []).append(v)
    out = []; 
    for b, vs in bytgt.items():
        cond = z3.Or([c == BV(v, w) for v in vs]) if len(vs) > 1 else c == BV(vs[0], w)
        if b == i["d"]: continue
        if e.feasible(s, cond):
            x = s.clone(); x.assume(cond); e.goto(x, b); out.append(x)
    dv = [v for b, vs in bytgt.items() if b != i["d"] for v in vs]
    cond = z3.And([c != BV(v, w) for v in dv]) if dv else z3.BoolVal(True)
    if e.feasible(s, cond):
        x = s.clone(); x.assume(cond); e.goto(x, i["d"]); out.append(x)
    if not out: raise PathEnd("infeasible switch")
    return out
def op_ret(e, s, fr, i):
    s.ret = e.val(s, fr, i["a"][0]) if i["a"] else None
    return RETURN
def op_unreachable(e, s, fr, i): raise PathEnd("unreachable")
def need_bv(v):
    if isinstance(v, (Ptr, FnPtr)): raise Unsupported("arithmetic on pointer")
    if z3.is_bool(v): return z3.If(v, BV(1, 1), BV(0, 1))
    if not z3.is_bv(v): raise Unsupported("arithmetic operand %r" % (v,))
    return v
def binop(f):
    def h(e, s, fr, i):
        a = e.val(s, fr, i["a"][0]); b = e.val(s, fr, i["a"][1])
        if i["ty"] == "i1":
            a = tobool(a); b = tobool(b); op = i["op"]
            r = {"and": lambda: z3.And(a, b), "or": lambda: z3.Or(a, b), "xor": lambda: z3.Xor(a, b), "add": lambda: z3.Xor(a, b), "sub": lambda: z3.Xor(a, b), "mul": lambda: z3.And(a, b)}.get(op)
            if r is None: raise Unsupported("i1 " + op)
            fr.env[i["id"]] = simp(r()); return CONT
        a = need_bv(a); b = need_bv(b)
        if i["op"] in ("udiv", "sdiv", "urem", "srem") and not s.dry and e.safety:
            e.prove("%s/safety/division by zero" % e.where(s), s, b != 0)
            s.assume(b != 0)
        if e.nsw and i.get("nsw") and not s.dry and i["op"] in ("add", "sub", "mul"):
            ok = {"add": lambda: z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)),
                  "sub": lambda: z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)),
                  "mul": lambda: z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))}[i["op"]]()
            e.prove("%s/safety/signed %s overflow" % (e.where(s), i["op"]), s, ok)
        if e.srem is not None and i["op"] == "srem" and not isc(b): fr.env[i["id"]] = e.srem(a, b); return CONT
        if e.divc is not None and i["op"] in ("udiv", "sdiv", "urem", "srem") and isc(b) and not isc(a): fr.env[i["id"]] = e.divc(s, i["op"], a, b); return CONT
        fr.env[i["id"]] = simp(f(a, b))
        return CONT
    return h
def op_icmp(e, s, fr, i):
    a = e.val(s, fr, i["a"][0]); b = e.val(s, fr, i["a"][1]); p = i["pred"]
    if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
        fr.env[i["id"]] = e.ptrcmp(s, a, b, p); return CONT
    if z3.is_bool(a): a = z3.If(a, BV(1, 1), BV(0, 1))
    if z3.is_bool(b): b = z3.If(b, BV(1, 1), BV(0, 1))
    if a is UNDEF or b is UNDEF: raise Unsupported("compare undef")
    r = {"eq": lambda: a == b, "ne": lambda: a != b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b),
         "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b), "slt": lambda: a < b, "sle": lambda: a <= b,
         "sgt": lambda: a > b, "sge": lambda: a >= b}[p]()
    fr.env[i["id"]] = simp(r)
    return CONT
def ptrcmp(e, s, a, b, p):
    if isinstance(a, FnPtr) or isinstance(b, FnPtr):
        if isinstance(a, FnPtr) and isinstance(b, FnPtr): eq = a.name == b.name
        else: eq = False
        if p not in ("eq", "ne"): raise Unsupported("fnptr compare")
        return z3.BoolVal(eq if p == "eq" else not eq)
    if a.rid == b.rid:
        x, y = a.off, b.off
        return simp({"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y),
                "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y)}[p]())
    if p == "eq": return z3.BoolVal(False)
    if p == "ne": return z3.BoolVal(True)
    x = e.ptrint(s, a); y = e.ptrint(s, b)
    return simp({"ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y), "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y)}[p]())
Engine.ptrcmp = ptrcmp
def op_select(e, s, fr, i):
    c = tobool(e.val(s, fr, i["a"][0])); a = e.val(s, fr, i["a"][1]); b = e.val(s, fr, i["a"][2])
    c = simp(c)
    if z3.is_true(c): fr.env[i["id"]] = a; return CONT
    if z3.is_false(c): fr.env[i["id"]] = b; return CONT
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid:
        fr.env[i["id"]] = Ptr(a.rid, simp(z3.If(c, a.off, b.off))); return CONT
    if isinstance(a, (Ptr, FnPtr, Agg, Undef)) or isinstance(b, (Ptr, FnPtr, Agg, Undef)):
        def mk(v):
            def f(x):
                x.frames[-1].env[i["id"]] = v; x.frames[-1].ip += 1
            return f
        r = e.branch(s, c, mk(a), mk(b))
        if r is None: return JUMP2
        return r
    fr.env[i["id"]] = simp(z3.If(c, tobool(a) if i["ty"] == "i1" else a, tobool(b) if i["ty"] == "i1" else b))
    return CONT
JUMP2 = "jump"
def op_cast(e, s, fr, i):
    v = e.val(s, fr, i["a"][0]); op = i["op"]; to = i["ty"]
    if op == "bitcast":
        if i["ot"] == "double" and to == "i64": v = z3.fpToIEEEBV(v)
        elif i["ot"] == "i64" and to == "double": v = z3.fpBVToFP(v, F64)
        fr.env[i["id"]] = v; return CONT
    if op == "freeze": fr.env[i["id"]] = v; return CONT
    if op == "ptrtoint":
        if not isinstance(v, (Ptr, FnPtr)): raise Unsupported("ptrtoint")
        fr.env[i["id"]] = e.ptrint(s, v)
        return CONT
    if op == "inttoptr":
        if isc(v): fr.env[i["id"]] = Ptr(0, v); return CONT
        raise Unsupported("inttoptr")
    w = int(to[1:]) if isinstance(to, str) and to[0] == "i" and to[1:].isdigit() else None
    if op in ("zext", "sext"):
        if z3.is_bool(v):
            r = z3.If(v, BV(1 if op == "zext" else -1, w), BV(0, w))
        else: r = z3.ZeroExt(w - v.size(), v) if op == "zext" else z3.SignExt(w - v.size(), v)
        if e.sextc is not None and op == "sext": r = e.sextc(s, r)
        fr.env[i["id"]] = simp(r); return CONT
    if op == "trunc":
        if w == 1: fr.env[i["id"]] = simp(z3.Extract(0, 0, v) == 1)
        else: fr.env[i["id"]] = simp(z3.Extract(w - 1, 0, v))
        return CONT
    srt = {"double": F64, "float": F32}
    if e.reals and op in ("sitofp", "uitofp"):
        fr.env[i["id"]] = simp(z3.ToReal(z3.BV2Int(need_bv(v), op == "sitofp"))); return CONT
    if e.reals: raise Unsupported("cast %s of real numbers" % op)
    if op == "sitofp":
        fr.env[i["id"]] = simp(z3.fpSignedToFP(RNE, need_bv(v), srt[to])); return CONT
    if op == "uitofp":
        fr.env[i["id"]] = simp(z3.fpUnsignedToFP(RNE, need_bv(v), srt[to])); return CONT
    if op in ("fptosi", "fptoui"):
        f = z3.fpToSBV if op == "fptosi" else z3.fpToUBV
        if not s.dry and e.safety and e.nsw:
            pass
        fr.env[i["id"]] = simp(f(z3.RTZ(), v, z3.BitVecSort(w))); return CONT
    if op in ("fpext", "fptrunc"):
        fr.env[i["id"]] = simp(z3.fpFPToFP(RNE, v, srt[to])); return CONT
    raise Unsupported("cast " + op)
def fbin(f):
    def h(e, s, fr, i):
        a = e.val(s, fr, i["a"][0]); b = e.val(s, fr, i["a"][1])
        fr.env[i["id"]] = simp(f(a, b)); return CONT
    return h
def op_fneg(e, s, fr, i):
    v = e.val(s, fr, i["a"][0]); fr.env[i["id"]] = simp(-v if e.reals else z3.fpNeg(v)); return CONT
def op_fcmp(e, s, fr, i):
    a = e.val(s, fr, i["a"][0]); b = e.val(s, fr, i["a"][1]); p = i["pred"]
    if e.reals:   # no NaN among the reals
        q = p[1:]
        r = z3.BoolVal(p == "ord") if p in ("ord", "uno") else {"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b}[q]()
        fr.env[i["id"]] = simp(r); return CONT
    nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
    base = {"eq": lambda: z3.fpEQ(a, b), "ne": lambda: z3.Not(z3.fpEQ(a, b)), "lt": lambda: z3.fpLT(a, b), "le": lambda: z3.fpLEQ(a, b),
            "gt": lambda: z3.fpGT(a, b), "ge": lambda: z3.fpGEQ(a, b)}
    if p == "ord": r = z3.Not(nan)
    elif p == "uno": r = nan
    elif p[0] == "o": r = z3.And(z3.Not(nan), base[p[1:]]())
    elif p[0] == "u": r = z3.Or(nan, base[p[1:]]())
    else: raise Unsupported("fcmp " + p)
    fr.env[i["id"]] = simp(r); return CONT
def op_extractvalue(e, s, fr, i):
    v = e.val(s, fr, i["a"][0])
    for k in i["ix"]:
        if not isinstance(v, Agg): raise Unsupported("extractvalue")
        v = v.els[k]
    fr.env[i["id"]] = v; return CONT
def op_insertvalue(e, s, fr, i):
    v = e.val(s, fr, i["a"][0]); x = e.val(s, fr, i["a"][1])
    def ins(v, ix):
        if not isinstance(v, Agg): raise Unsupported("insertvalue")
        n = Agg(v.els)
        n.els[ix[0]] = x if len(ix) == 1 else ins(v.els[ix[0]], ix[1:])
        return n
    fr.env[i["id"]] = ins(v, i["ix"]); return CONT
def op_landingpad(e, s, fr, i):
    exc = s.exc
    sel = BV(0, 32)
    for kind, v in i["cl"]:
        if kind != "catch": continue
        if v[0] == "null" or (v[0] == "g" and e.exc_matches(exc, v[1])):
            sel = BV(e.typeid("any" if v[0] == "null" else v[1]), 32); break
    else:
        if not i["cleanup"]:
            # no clause matches: continue unwinding from this frame
            s._in_resume = True
            return UNWIND
    fr.env[i["id"]] = Agg([exc["ptr"], sel]); return CONT
def op_resume(e, s, fr, i):
    s._in_resume = True
    return UNWIND
def _typeid(e, n):
    if n not in e.typeids: e.typeids[n] = len(e.typeids) + 1
    return e.typeids[n]
Engine.typeid = _typeid
STD_EXC_BASES = {"_ZTISt12out_of_range": ["_ZTISt11logic_error", "_ZTISt9exception"], "_ZTISt12length_error": ["_ZTISt11logic_error", "_ZTISt9exception"],
                 "_ZTISt11logic_error": ["_ZTISt9exception"], "_ZTISt13runtime_error": ["_ZTISt9exception"]}
def _exc_matches(e, exc, ti):
    t = exc["type"]
    if t == ti: return True
    return ti in STD_EXC_BASES.get(t, []) or ti in e.type_bases(t)
def _type_bases(e, t):
    g = e.m.globals.get(t); out = []
    if g and "cells" in g:
        for o, sz, v in g["cells"]:
            if o >= 16 and v[0] == "g" and v[1].startswith("_ZTI"): out.append(v[1]); out += e.type_bases(v[1])
    return out
Engine.exc_matches = _exc_matches; Engine.type_bases = _type_bases

def op_call(e, s, fr, i):
    f = e.val(s, fr, i["f"]) if i["f"][0] != "asm" else None
    if f is None: raise Unsupported("inline asm")
    args = None
    if isinstance(f, FnPtr): return e.do_call(s, fr, i, f.name)
    raise Unsupported("indirect call through %r" % (f,))
def do_call(e, s, fr, i, name):
    fn = e.m.fns.get(name)
    if name.startswith("ghost:"):
        h = e.ghost_calls[name]
        args = [e.val(s, fr, a) for a in i["a"]]
        return e.finish(s, i, h(e, s, args, i))
    h = e._icache.get(name)
    if h is None:
        dem = fn["dem"] if fn else name
        h = False
        for m, hd in e.intercepts:
            if m(name, dem): h = hd; break
        e._icache[name] = h
    args = [e.val(s, fr, a) if a[0] != "unsup" else UNDEF for a in i["a"]]
    if name in e.contracts:
        return e.finish(s, i, e.contracts[name](e, s, args, i))
    if h:
        return e.finish(s, i, h(e, s, args, i))
    if fn is None or fn["decl"]:
        raise Unsupported("call to %s" % (fn["dem"] if fn else name))
    if len(s.frames) > 60: raise Unsupported("call depth (recursion without contract)")
    e.fn_inlined.add(fn["dem"])
    # byval
    nf = Frame(fn)
    for k, a in enumerate(args):
        pb = fn["params"][k].get("byval") if k < len(fn["params"]) else None
        if pb:
            c = s.new_region("byval", pb, sym=False); nf.allocas.append(c.rid)
            e.memcpy(s, c, a, BV(pb, 64)); a = c
        nf.env[k] = a
    s.frames.append(nf)
    return JUMP
Engine.do_call = do_call
class Throw:
    def __init__(self, type, code=None): self.type = type; self.code = code
class Fork:
    """Result of a model: list of (condition, function(state) -> value)"""
    def __init__(self, alts): self.alts = alts
def finish(e, s, i, r):
    """Continue after an intercepted call whose result is r."""
    if isinstance(r, Throw):
        p = s.new_region("exception", 64, sym=False)
        s.exc = {"ptr": p, "type": r.type, "code": r.code}
        s._in_resume = False
        return UNWIND
    if isinstance(r, Fork):
        out = []
        for cond, fnv in r.alts:
            c = simp(tobool(cond))
            if z3.is_false(c): continue
            x = s.clone(); x.assume(c)
            if not z3.is_true(c) and not e.feasible(x): continue
            rv = fnv(x)
            rr = e.finish(x, i, rv)
            if rr is UNWIND:
                q = e.unwind_from(x)
                out.append(x)
            elif isinstance(rr, list): out.extend(rr)
            else:
                if rr is CONT: x.frames[-1].ip += 1
                out.append(x)
        if not out: raise PathEnd("infeasible")
        return out
    if r is UNWIND or r is JUMP: return r
    fr = s.frames[-1]
    if "ty" in i and r is not None: fr.env[i["id"]] = r
    if i["op"] == "invoke": e.goto(s, i["n"]); return JUMP
    return CONT
Engine.finish = finish
def unwind_from(e, x):
    x.pending_unwind = True
Engine.unwind_from = unwind_from
_old_step = Engine.step
def step2(self, s, base, loopstop):
    if getattr(s, "pending_unwind", False):
        s.pending_unwind = False
        return self.unwind(s, base)
    return _old_step(self, s, base, loopstop)
Engine.step = step2
_old_clone = State.clone
def clone2(self):
    c = _old_clone(self)
    if getattr(self, "pending_unwind", False): c.pending_unwind = True
    if getattr(self, "_in_resume", False): c._in_resume = True
    return c
State.clone = clone2

OPS = {"alloca": op_alloca, "load": op_load, "store": op_store, "getelementptr": op_gep, "phi": op_phi, "br": op_br,
       "switch": op_switch, "ret": op_ret, "unreachable": op_unreachable, "icmp": op_icmp, "select": op_select,
       "call": op_call, "invoke": op_call, "extractvalue": op_extractvalue, "insertvalue": op_insertvalue,
       "landingpad": op_landingpad, "resume": op_resume, "fcmp": op_fcmp, "fneg": op_fneg,
       "add": binop(lambda a, b: a + b), "sub": binop(lambda a, b: a - b), "mul": binop(lambda a, b: a * b),
       "udiv": binop(z3.UDiv), "sdiv": binop(lambda a, b: a / b), "urem": binop(z3.URem), "srem": binop(z3.SRem),
       "and": binop(lambda a, b: a & b), "or": binop(lambda a, b: a | b), "xor": binop(lambda a, b: a ^ b),
       "shl": binop(lambda a, b: a << b), "lshr": binop(z3.LShR), "ashr": binop(lambda a, b: a >> b),
       "fadd": fbin(lambda a, b: a + b if z3.is_real(a) else z3.fpAdd(RNE, a, b)), "fsub": fbin(lambda a, b: a - b if z3.is_real(a) else z3.fpSub(RNE, a, b)),
       "fmul": fbin(lambda a, b: a * b if z3.is_real(a) else z3.fpMul(RNE, a, b)), "fdiv": fbin(lambda a, b: a / b if z3.is_real(a) else z3.fpDiv(RNE, a, b))}
for _c in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "freeze"):
    OPS[_c] = op_cast
# pointer difference: sub of two ptrtoint of the same region folds because both share base_<rid>

def portfolio(queries, timeout_ms):
    """Queries (solver, whether 'sat' is an answer) to every installed SMT solver at once; first answer wins."""
    import subprocess, tempfile, shutil
    d = tempfile.mkdtemp(prefix="vq"); procs = []
    try:
        for i, (s, full) in enumerate(queries):
            f = os.path.join(d, "q%d.smt2" % i); open(f, "w").write(s.to_smt2()); sec = max(1, timeout_ms // 1000)
            for nm, cmd in (("z3-new", ["z3-new", "-T:%d" % sec, f]), ("cvc5", ["cvc5", "--tlimit=%d" % timeout_ms, f]), ("z3-4.8", ["z3", "-T:%d" % sec, f])):
                try: procs.append([nm, full, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)])
                except OSError: pass
        end = time.time() + timeout_ms / 1000 + 2
        while procs and time.time() < end:
            for x in list(procs):
                if x[2].poll() is None: continue
                procs.remove(x); out = x[2].stdout.read().split("\n")[0].strip(); x[2].stdout.close()
                if out == "unsat": return z3.unsat, x[0]
                if out == "sat" and x[1]: return z3.sat, x[0]
            time.sleep(0.02)
        return z3.unknown, "portfolio"
    finally:
        for x in procs: x[2].kill(); x[2].wait()
        shutil.rmtree(d, ignore_errors=True)
