"""S03 tokens."""
from contracts.tokcommon import *
TUS = ["base/PdfTokenizer.cpp", "private/PdfDeclarationsPrivate.cpp"]
LEVEL = "proof"
BOUNDED_NOTE = "native differential search: every text of length 0-4 over 12 representative bytes, seeded random texts with comments, long runs and token buffers of every small size, compared with an independent tokenizer (tokens, types and device position), and every byte against the character classes"
TRUSTED = [
  "std::deque (token queue) operations: size, front, pop_front",
]
UNITS, BOUNDED, proof, bounded = registry()

@proof("character classes")
def classes(u):
    prove_charclass(u, ("IsWhitespace", "IsDelimiter", "IsRegular"))
    e = u.engine("lemma/"); c = z3.BitVec("c", 8)
    e.prove("every byte is in exactly one class", None, z3.And(z3.Not(z3.And(is_white(c), is_delim(c))), is_regular(c) == z3.Not(z3.Or(is_white(c), is_delim(c)))))

def queue(e, size, front=None, popped=None):
    """contract of the queued tokens"""
    e.intercepts.insert(0, (rx(r"^std::deque<.*>::size\(\)"), lambda en, s, a, i: size))
    e.intercepts.insert(0, (rx(r"^std::deque<.*>::empty\(\)"), lambda en, s, a, i: simp(size == 0)))
    if front is not None:
        e.intercepts.insert(0, (rx(r"^std::deque<.*>::front\(\)"), lambda en, s, a, i: front))
        def pop(en, s, a, i): s.ghost[("popped",)] = simp(s.ghost[("popped",)] + 1)
        e.intercepts.insert(0, (rx(r"^std::deque<.*>::pop_front\(\)"), pop))

@proof("read token")
def read(u):
    e, st, this, bufobj, M, dev, arr, n = tok_setup(u)
    queue(e, BV(0, 64)); use_charclass(e)
    token = st.new_region("token", 16); typ = st.new_region("type", 4)
    T = Tok(u); buf = str_buf(st, bufobj); R0 = e.flatten(st, buf).arr
    fold = Fold(T.init(R0), T.step(M), arr, 0, n)
    F = u.m.find("mm::PdfTokenizer::TryReadNextToken", pred=lambda f: f["dem"].count(",") >= 2 and f["dem"].rstrip().endswith("PdfTokenType&)") and f["dem"].count(",") <= 3 and "PdfVariant" not in f["dem"])
    def data(s2): return e.flatten(s2, buf).arr
    def facts(h):
        p = in_pos(h.st, dev); return fold.facts(p) + fold.facts(simp(p + 1)) + fold.final(5, p, simp(p + 1))
    def outer(h):
        p = in_pos(h.st, dev); ph, cons, R, cnt, ty, fin = fold.at(p)
        c = fold.byte(p)
        return [("position", z3.And(z3.ULE(p, n), cons == p, fin == (cnt == M), z3.ULE(cnt, M))),
                ("phase", z3.Or(z3.And(ph == T.SKIP, cnt == 0), z3.And(ph == T.COMMENT, cnt == 0, z3.ULT(p, n), z3.Or(c == 10, c == 13)), z3.And(ph == T.TOKEN, cnt != 0), z3.And(ph == T.DONE, cnt == M))),
                ("token so far", z3.And(data(h.st) == R, ty == T.t["Literal"], h.st.rd(typ, 4) == ty)), ("token length", length(h) == cnt)]
    def length(h):
        # the loop-carried token length: the local of the loop that starts at 0
        c = [h.phis[i] for i, v0, _ in h.entry if z3.is_bv(v0) and v0.size() == 64 and isc(simp(v0)) and cval(simp(v0)) == 0]
        if len(c) != 1: raise Unsupported("token length local not found")
        return c[0]
    def inner(h):
        p = in_pos(h.st, dev); ph, cons, R, cnt, ty, fin = fold.at(p); c = fold.byte(p)
        f0 = fold.at(in_pos(h.st0, dev))
        return [("in a comment", z3.And(z3.ULT(p, n), cons == p, z3.Not(fin), cnt == f0[3], R == f0[2], ty == f0[4],
                 z3.Or(z3.And(f0[0] == T.TOKEN, cnt != 0, z3.Or(z3.And(ph == T.TOKEN, c == ord("%")), z3.And(ph == T.TRAIL, c != 10, c != 13))),
                       z3.And(f0[0] == T.SKIP, cnt == 0, z3.Or(z3.And(ph == T.SKIP, c == ord("%")), z3.And(ph == T.COMMENT, c != 10, c != 13))))))]
    ps = e.run(F, [this, dev, token, typ], st, [LoopSpec(inv=outer, facts=facts, name="bytes"), LoopSpec(inv=inner, facts=facts, depth=1, name="comment")])
    finals(e, ps, "TryReadNextToken"); nothrow(e, ps, "TryReadNextToken")
    ph, cons, R, cnt, ty, fin = fold.at(n)
    for p in ps:
        ok = tobool(p.ret)
        e.prove("TryReadNextToken/post/true exactly if there is a token", p, ok == (cnt != 0))
        e.prove("TryReadNextToken/post/consumes exactly the token and what precedes it", p, in_pos(p, dev) == cons)
        e.prove("TryReadNextToken/post/token length", p, z3.Implies(ok, z3.And(p.rd(token, 8) == cnt, z3.ULE(cnt, M))))
        i = z3.BitVec("i", 64)
        e.prove("TryReadNextToken/post/token bytes", p, z3.Implies(z3.And(ok, z3.ULT(i, cnt)), z3.Select(data(p), i) == z3.Select(R, i)))
        e.prove("TryReadNextToken/post/zero terminated", p, z3.Implies(ok, z3.Select(data(p), cnt) == 0))
        e.prove("TryReadNextToken/post/token type", p, z3.Implies(z3.And(ok, fin), p.rd(typ, 4) == ty))
        tp = e.load(p, padd(token, 8), 8, "ptr") if z3.is_true(simp(ok)) else None
        if tp is not None: e.prove("TryReadNextToken/post/view is of the token buffer", p, z3.BoolVal(tp.rid == buf.rid and isc(tp.off) and cval(tp.off) == 0))

@proof("queued token")
def queued(u):
    e, st, this, bufobj, M, dev, arr, n = tok_setup(u)
    q = z3.BitVec("queued", 64); st.assume(q != 0)
    ln = z3.BitVec("qlen", 64); st.assume(z3.ULE(ln, BV(1 << 40, 64)))
    pair = st.new_region("front", 40); str_init(st, pair, ln); st.ghost[("popped",)] = BV(0, 64)
    queue(e, q, pair)
    src = e.flatten(st, str_buf(st, pair)).arr; buf = str_buf(st, bufobj); qt = st.rd(padd(pair, 32), 4)
    token = st.new_region("token", 16); typ = st.new_region("type", 4)
    F = u.m.find("mm::PdfTokenizer::TryReadNextToken", pred=lambda f: f["dem"].rstrip().endswith("PdfTokenType&)") and "PdfVariant" not in f["dem"])
    ps = e.run(F, [this, dev, token, typ], st)
    finals(e, ps, "TryReadNextToken (queued)"); nothrow(e, ps, "TryReadNextToken (queued)")
    i = z3.BitVec("i", 64)
    for p in ps:
        e.prove("TryReadNextToken (queued)/post/returns the first queued token once, without reading", p, z3.And(tobool(p.ret), p.rd(typ, 4) == qt, in_pos(p, dev) == 0, p.ghost[("popped",)] == 1))
        l = p.rd(token, 8)
        e.prove("TryReadNextToken (queued)/post/its bytes", p, z3.And(l == z3.If(z3.ULT(ln, M), ln, M), z3.Implies(z3.ULT(i, l), z3.Select(e.flatten(p, buf).arr, i) == z3.Select(src, i)), z3.Select(e.flatten(p, buf).arr, l) == 0))

@proof("lemmas")
def lem(u):
    e = u.engine("lemma/"); T = Tok(u); M = z3.BitVec("M", 64)
    s = [z3.BitVec("ph", 8), z3.BitVec("cons", 64), z3.Const("R", ARR), z3.BitVec("cnt", 64), z3.BitVec("ty", 32), z3.Bool("fin")]
    lemma_final(e, "a finished token stays as it is", T.step(M), s, 5)
