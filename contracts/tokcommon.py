"""Set-up shared by the tokenizer contracts."""
from engine.api import *
from contracts.common import *
TK = "mm::PdfTokenizer"
def enum_val(u, enum, name):
    e = u.m.enums.get(enum)
    if e is None or name not in e: raise Unsupported("enumerator %s::%s" % (enum, name))
    return e[name]
def tok_setup(u, prefix=""):
    """A tokenizer whose token buffer holds M+1 bytes (M >= 2), and an input device with n bytes from its position."""
    e = u.engine(prefix); st = State(e)
    this = st.new_region("tokenizer", u.m.sizeof(TK))
    M = z3.BitVec("M", 64); st.assume(z3.And(z3.UGE(M, 2), z3.ULE(M, BV(1 << 32, 64))))
    bufobj = st.new_region("bufobj", 32); str_init(st, bufobj, M + 1)
    st.wr(st.fptr(this, TK, "m_buffer"), 8, bufobj)
    n = z3.BitVec("n", 64); st.assume(z3.ULE(n, BV(1 << 30, 64)))
    dev, arr = new_input(st, "device", n)
    return e, st, this, bufobj, M, dev, arr, n
class Tok:
    """The token transducer of the specification. Components: phase, bytes consumed, token buffer, token length, type, final"""
    SKIP, COMMENT, TOKEN, LT, GT, TRAIL, DONE = range(7)
    def __init__(self, u):
        T = "mm::PdfTokenType"
        self.t = {k: BV(enum_val(u, T, k), 32) for k in ("Literal", "ParenthesisLeft", "ParenthesisRight", "BraceLeft", "BraceRight", "AngleBracketLeft", "AngleBracketRight", "DoubleAngleBracketsLeft", "DoubleAngleBracketsRight", "SquareBracketLeft", "SquareBracketRight", "Slash")}
    def init(self, R): return [BV(self.SKIP, 8), BV(0, 64), R, BV(0, 64), self.t["Literal"], z3.BoolVal(False)]
    def step(self, M):
        t = self.t
        def step(s, c):
            ph, cons, R, cnt, ty, fin = s
            P = lambda x: BV(x, 8)
            eol = z3.Or(c == 10, c == 13)
            stop = [P(self.DONE), cons, R, cnt, ty, z3.BoolVal(True)]                        # c is not part of the token
            skip = lambda p: [P(p), cons + 1, R, cnt, ty, z3.BoolVal(False)]
            def put(p, typ, fin): return [P(p), cons + 1, z3.Store(R, cnt, c), cnt + 1, typ, fin]
            one = t["Literal"]
            for ch, nm in (("(", "ParenthesisLeft"), (")", "ParenthesisRight"), ("[", "SquareBracketLeft"), ("]", "SquareBracketRight"), ("{", "BraceLeft"), ("}", "BraceRight"), ("/", "Slash")):
                one = z3.If(c == ord(ch), t[nm], one)
            isone = z3.Or(*[c == ord(x) for x in "()[]{}/"])
            true, false = z3.BoolVal(True), z3.BoolVal(False)
            s0 = ite(is_white(c), skip(self.SKIP), ite(c == ord("%"), skip(self.COMMENT), ite(c == ord("<"), put(self.LT, ty, false), ite(c == ord(">"), put(self.GT, ty, false),
                 ite(isone, put(self.DONE, one, true), put(self.TOKEN, t["Literal"], false))))))
            s1 = ite(eol, skip(self.SKIP), skip(self.COMMENT))
            s2 = ite(z3.Or(is_white(c), z3.And(is_delim(c), c != ord("%"))), stop, ite(c == ord("%"), skip(self.TRAIL),
                 ite(cnt + 1 == M, put(self.DONE, ty, true), put(self.TOKEN, ty, false))))
            def angle(ch, single, double): return ite(c == ord(ch), put(self.DONE, t[double], true), [P(self.DONE), cons, R, cnt, t[single], true])
            s3 = angle("<", "AngleBracketLeft", "DoubleAngleBracketsLeft"); s4 = angle(">", "AngleBracketRight", "DoubleAngleBracketsRight")
            s5 = ite(eol, stop, skip(self.TRAIL))
            r = s5
            for k, v in ((self.LT, s3), (self.GT, s4), (self.TOKEN, s2), (self.COMMENT, s1), (self.SKIP, s0)): r = ite(ph == k, v, r)
            return ite(fin, s, r)
        return step
