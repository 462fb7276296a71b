"""Contracts of small shared helpers. Each has a proof (run in every property that relies on it) and an
installer that lets callers use the contract instead of the body."""
from engine.api import *

def find_opt(m, name):
    try: return m.find(name)
    except Unsupported: return None

# utls::TryGetHexValue(ch, value&): true and value = digit value for a hex digit, else false (value 0)
def prove_hexvalue(u):
    F = u.m.find("utls::TryGetHexValue")
    e = u.engine(""); st = State(e)
    ch = z3.BitVec("ch", 8); p = st.new_region("value", 1)
    v0 = st.rd(p, 1)
    ps = e.run(F, [ch, p], st)
    finals(e, ps, "TryGetHexValue")
    for q in ps:
        e.prove("TryGetHexValue/post/returns whether ch is a hex digit", q, tobool(q.ret) == is_hex(ch))
        e.prove("TryGetHexValue/post/value of the digit", q, z3.Implies(is_hex(ch), q.rd(p, 1) == hexval(ch)))
def use_hexvalue(e):
    F = find_opt(e.m, "utls::TryGetHexValue")
    if F is None: return
    def h(e, s, a, i):
        if not e.check_access(s, a[1], 1, "hex value", i): raise PathEnd("bad")
        ch = a[0]; s.wr(a[1], 1, simp(z3.If(is_hex(ch), hexval(ch), fresh("nohex", 8))))
        return simp(is_hex(ch))
    e.contracts[F] = h
# PdfTokenizer::IsWhitespace / IsDelimiter / IsRegular / IsPrintable
def is_delim(b): return z3.Or(*[b == u8(ord(c)) for c in "()<>[]{}/%"])
def is_regular(b): return z3.And(z3.Not(is_white(b)), z3.Not(is_delim(b)))
def is_printable(b): return inrange(b, 33, 126)
CLASSES = {"IsWhitespace": is_white, "IsDelimiter": is_delim, "IsRegular": is_regular, "IsPrintable": is_printable}
def prove_charclass(u, which=("IsWhitespace",)):
    for w in which:
        F = u.m.find("mm::PdfTokenizer::" + w)
        e = u.engine(""); st = State(e); ch = z3.BitVec("ch", 8)
        ps = e.run(F, [ch], st)
        finals(e, ps, w)
        for q in ps: e.prove(w + "/post/is the class of the specification", q, tobool(q.ret) == CLASSES[w](ch))
def use_charclass(e):
    for w, spec in CLASSES.items():
        F = find_opt(e.m, "mm::PdfTokenizer::" + w)
        if F is None: continue
        e.contracts[F] = lambda e, s, a, i, spec=spec: simp(spec(a[0]))
def use_guard(e):
    """utls::RecursionGuard by its contract of D03: within the limit it has no effect the caller can see (raising beyond the limit is decided by D03)"""
    e.intercepts.insert(0, (rx(r"^utls::RecursionGuard::~?RecursionGuard\(\)"), lambda en, s, a, i: None))
