"""O01 content operators. The oracle is the operator summary of ISO 32000-1 (Annex A), written out below."""
from engine.api import *
from contracts.tokcommon import enum_val
TUS = ["base/PdfOperatorUtils.cpp"]
LEVEL = "proof"
BOUNDED_NOTE = "native: all keywords, all texts of up to three characters of the keyword alphabet and of all characters around each keyword, all operator values from -2 to 80 and the extremes; each keyword read from a content stream with its operands"
TRUSTED = ["std::string_view compares its characters"]
UNITS, BOUNDED, proof, bounded = registry()
TABLE = {"w": 1, "J": 1, "j": 1, "M": 1, "d": 2, "ri": 1, "i": 1, "gs": 1, "q": 0, "Q": 0, "cm": 6, "m": 2, "l": 2, "c": 6, "v": 4, "y": 4, "h": 0, "re": 4, "S": 0, "s": 0, "f": 0, "F": 0,
         "f*": 0, "B": 0, "B*": 0, "b": 0, "b*": 0, "n": 0, "W": 0, "W*": 0, "BT": 0, "ET": 0, "Tc": 1, "Tw": 1, "Tz": 1, "TL": 1, "Tf": 2, "Tr": 1, "Ts": 1, "Td": 2, "TD": 2, "Tm": 6, "T*": 0,
         "Tj": 1, "TJ": 1, "'": 1, '"': 3, "d0": 2, "d1": 6, "CS": 1, "cs": 1, "SC": -1, "SCN": -1, "sc": -1, "scn": -1, "G": 1, "g": 1, "RG": 3, "rg": 3, "K": 4, "k": 4, "sh": 1,
         "BI": 0, "ID": 0, "EI": 0, "Do": 1, "MP": 1, "DP": 2, "BMC": 1, "BDC": 2, "EMC": 0, "BX": 0, "EX": 0}
OP = "mm::PdfOperator"
def name(k): return {"'": "Quote", '"': "DoubleQuote"}.get(k, k.replace("*", "_Star"))
def val(u, k): return BV(enum_val(u, OP, name(k)), 32)
def text_is(arr, n, t): return z3.And(n == len(t), *[z3.Select(arr, BV(i, 64)) == ord(c) for i, c in enumerate(t)])
def thrown(p, u, code):
    c = p.exc.get("code"); return z3.BoolVal(False) if c is None else c == BV(enum_val(u, "mm::PdfErrorCode", code), c.size())
@proof("keyword to operator")
def kw(u):
    u0 = u.engine("")
    u0.prove("operators/every keyword has an operator of its own", None, z3.BoolVal(len({enum_val(u, OP, name(k)) for k in TABLE}) == len(TABLE)))
    u0.prove("operators/there are no further operators", None, z3.BoolVal({n for n in u.m.enums[OP] if n != "Unknown"} == {name(k) for k in TABLE}))
    for tr in (True, False):
        F = u.m.find("mm::TryGetPdfOperator" if tr else "mm::GetPdfOperator"); what = "TryGetPdfOperator" if tr else "GetPdfOperator"
        e = u.engine(""); st = State(e); n = z3.BitVec("length", 64); st.assume(z3.ULT(n, BV(1 << 32, 64)))
        b, arr = st.buffer("text", n); sv = st.new_region("view", 16); st.wr(sv, 8, n); st.wr(padd(sv, 8), 8, b); out = st.new_region("op", 4); old = BV(0x5555, 32); st.wr(out, 4, old)
        ps = e.run(F, [sv] + ([out] if tr else []), st); finals(e, ps, what)
        known = z3.Or(*[text_is(arr, n, k) for k in TABLE])
        for p in ps:
            if p.kind == "throw":
                e.prove(what + "/post/raises InvalidName only for another text", p, z3.And(z3.Not(known), thrown(p, u, "InvalidName"), z3.BoolVal(not tr))); continue
            r = p.rd(out, 4) if tr else p.ret
            ok = tobool(p.ret) if tr else z3.BoolVal(True)
            for k in TABLE: e.prove(what + "/post/recognises " + k, p, z3.Implies(text_is(arr, n, k), z3.And(ok, r == val(u, k))))
            e.prove(what + "/post/recognises no other text", p, z3.Implies(z3.Not(known), z3.Not(ok)))
            if tr: e.prove(what + "/frame/the text is not changed", p, e.flatten(p, b).arr == arr if True else None)
@proof("operator to keyword")
def wk(u):
    for tr in (True, False):
        F = u.m.find("mm::TryGetPdfOperatorName" if tr else "mm::GetPdfOperatorName"); what = "TryGetPdfOperatorName" if tr else "GetPdfOperatorName"
        e = u.engine(""); st = State(e); op = z3.BitVec("op", 32); out = st.new_region("view", 16)
        ps = e.run(F, [op] + ([out] if tr else []), st); finals(e, ps, what); known = z3.Or(*[op == val(u, k) for k in TABLE])
        for p in ps:
            if p.kind == "throw": e.prove(what + "/post/raises InvalidEnumValue only for another value", p, z3.And(z3.BoolVal(not tr), z3.Not(known), thrown(p, u, "InvalidEnumValue"))); continue
            if tr: n, ptr = p.rd(out, 8), p.rd(padd(out, 8), 8, "ptr")
            else: n, ptr = p.ret.els
            ok = tobool(p.ret) if tr else z3.BoolVal(True); t = None
            if isc(simp(n)) and isinstance(ptr, Ptr):
                try: t = const_text(e, p, ptr, n).decode("latin1")
                except Unsupported: pass
            e.prove(what + "/post/gives the keyword of the operator, and of no other value", p, z3.If(known, z3.And(ok, z3.Or(*[op == val(u, k) for k in TABLE if k == t])), z3.Not(ok)))
@proof("operand count")
def cnt(u):
    for tr in (True, False):
        F = u.m.find("mm::TryGetOperandCount" if tr else "mm::GetOperandCount"); what = "TryGetOperandCount" if tr else "GetOperandCount"
        e = u.engine(""); st = State(e); op = z3.BitVec("op", 32); out = st.new_region("count", 4)
        ps = e.run(F, [op] + ([out] if tr else []), st); finals(e, ps, what); known = z3.Or(*[op == val(u, k) for k in TABLE])
        for p in ps:
            if p.kind == "throw": e.prove(what + "/post/raises InvalidEnumValue only for another value", p, z3.And(z3.BoolVal(not tr), z3.Not(known), thrown(p, u, "InvalidEnumValue"))); continue
            r = p.rd(out, 4) if tr else p.ret; ok = tobool(p.ret) if tr else z3.BoolVal(True)
            for k, c in TABLE.items(): e.prove("%s/post/%s takes %s" % (what, k, c if c >= 0 else "a variable number of operands"), p, z3.Implies(op == val(u, k), z3.And(ok, r == c)))
            e.prove(what + "/post/no count for another value", p, z3.Implies(z3.Not(known), z3.Not(ok)))
