#include "vt.h"
#include <pdfmm/base/PdfData.h>
#include <cmath>
#include <limits>
#include <map>
#include <memory>
using namespace mm;
// pair:<a>:<b>  comparisons of two values      acc:<a>  every accessor      set:<a>:<n>  setter number n      move:<a>:<b>  copies, moves, assignment of b over a
// self:<a>      assignment to itself and from its parts. A value is a number into the pool, or r<seed> for a random nested one (r<seed>+ changes one detail)
struct V { PdfDataType t = PdfDataType::Null; int64_t n = 0; double d = 0; std::string s; uint32_t no = 0; uint16_t gen = 0; std::vector<V> a; std::map<std::string, V> m; };
static std::vector<V> pool;
static V mk(PdfDataType t) { V v; v.t = t; return v; }
static V num(int64_t n) { V v = mk(PdfDataType::Number); v.n = n; return v; }
static V real(double d) { V v = mk(PdfDataType::Real); v.d = d; return v; }
static V str(const std::string& s, bool name = false) { V v = mk(name ? PdfDataType::Name : PdfDataType::String); v.s = s; return v; }
static V ref(uint32_t n, uint16_t g) { V v = mk(PdfDataType::Reference); v.no = n; v.gen = g; return v; }
static V boo(bool b) { V v = mk(PdfDataType::Bool); v.n = b; return v; }
static V arr(std::vector<V> a) { V v = mk(PdfDataType::Array); v.a = a; return v; }
static V dict(std::map<std::string, V> m) { V v = mk(PdfDataType::Dictionary); v.m = m; return v; }
static void fill() {
    if (pool.size()) return;
    pool = { mk(PdfDataType::Null), boo(false), boo(true) };
    for (int64_t n : { (int64_t)0, (int64_t)1, (int64_t)-1, (int64_t)2, (int64_t)255, (int64_t)65536, (int64_t)4294967296, (int64_t)4294967297, INT64_MAX, INT64_MIN, (int64_t)1 << 53, ((int64_t)1 << 53) + 1 }) pool.push_back(num(n));
    for (double d : { 0.0, 1.0, -1.0, 0.5, 2.5, -0.5, 1.5, 1e300, 9007199254740992.0, 9007199254740994.0, 5e-324, 0.1, 0.30000000000000004, 0.3, (double)INFINITY }) pool.push_back(real(d));
    for (const char* s : { "", "a", "A", "ab", "ba", "true", "1", "null" }) { pool.push_back(str(s)); if (*s) pool.push_back(str(s, true)); }
    for (uint32_t n : { 0u, 1u, 2u, 65536u, 4294967295u }) for (uint16_t g : { 0, 1, 2, 65535 }) pool.push_back(ref(n, g));
    pool.push_back(arr({})); pool.push_back(arr({ num(1) })); pool.push_back(arr({ real(1) })); pool.push_back(arr({ num(1), num(2) })); pool.push_back(arr({ num(2), num(1) })); pool.push_back(arr({ arr({}) })); pool.push_back(arr({ mk(PdfDataType::Null) })); pool.push_back(arr({ str("a") })); pool.push_back(arr({ str("a", true) }));
    pool.push_back(dict({})); pool.push_back(dict({ { "A", num(1) } })); pool.push_back(dict({ { "A", num(2) } })); pool.push_back(dict({ { "B", num(1) } })); pool.push_back(dict({ { "A", num(1) }, { "B", num(1) } })); pool.push_back(dict({ { "A", dict({ { "A", num(1) } }) } })); pool.push_back(dict({ { "A", arr({ num(1) }) } })); }
static V rnd(vt::Rng& r, int depth) {
    int k = r.below(depth > 0 ? 9 : 7);
    switch (k) { case 0: return mk(PdfDataType::Null); case 1: return boo(r.below(2)); case 2: return num((int64_t)r.next() >> r.below(64)); case 3: return real((double)(int64_t)r.below(2000) / 8 - 100);
        case 4: return str(r.from("abc()\\ ", r.below(6))); case 5: return str(r.from("abcXYZ", 1 + r.below(4)), true); case 6: return ref(1 + r.below(5), r.below(3));
        case 7: { V v = arr({}); for (int n = r.below(5); n--;) v.a.push_back(rnd(r, depth - 1)); return v; }
        default: { V v = dict({}); for (int n = r.below(5); n--;) v.m[r.from("ABCD", 1 + r.below(2))] = rnd(r, depth - 1); return v; } } }
static void tweak(V& v, vt::Rng& r) {   // one detail changes
    switch (v.t) { case PdfDataType::Number: v.n ^= (int64_t)1 << r.below(64); break; case PdfDataType::Real: v.d = v.d == 0 ? 1 : v.d * 2; break; case PdfDataType::Bool: v.n = !v.n; break;
        case PdfDataType::String: case PdfDataType::Name: if (v.s.size() && r.below(2)) v.s[r.below(v.s.size())] ^= 1; else v.s += 'q'; break;
        case PdfDataType::Reference: if (r.below(2)) v.no ^= 8; else v.gen ^= 4; break;
        case PdfDataType::Array: if (v.a.size() && r.below(4)) tweak(v.a[r.below(v.a.size())], r); else v.a.push_back(num(1)); break;
        case PdfDataType::Dictionary: if (v.m.size() && r.below(4)) { auto it = v.m.begin(); std::advance(it, r.below(v.m.size())); tweak(it->second, r); } else v.m["ZZ"] = num(1); break;
        default: v = boo(true); } }
static V value(const std::string& s) { fill(); if (s[0] != 'r') return pool.at(atoi(s.c_str())); vt::Rng r(strtoull(s.c_str() + 1, 0, 10)); V v = rnd(r, 3); if (s.back() == '+') tweak(v, r); return v; }
static PdfVariant build(const V& v) {
    switch (v.t) { case PdfDataType::Bool: return PdfVariant(v.n != 0); case PdfDataType::Number: return PdfVariant(v.n); case PdfDataType::Real: return PdfVariant(v.d); case PdfDataType::String: return PdfVariant(PdfString(v.s)); case PdfDataType::Name: return PdfVariant(PdfName(v.s));
        case PdfDataType::Reference: return PdfVariant(PdfReference(v.no, v.gen)); case PdfDataType::Array: { PdfArray a; for (auto& x : v.a) a.Add(PdfObject(build(x))); return PdfVariant(a); }
        case PdfDataType::Dictionary: { PdfDictionary d; for (auto& x : v.m) d.AddKey(PdfName(x.first), PdfObject(build(x.second))); return PdfVariant(std::move(d)); } default: return PdfVariant(); } }
static bool eq(const V& a, const V& b) {
    if (a.t != b.t) return false;
    switch (a.t) { case PdfDataType::Bool: case PdfDataType::Number: return a.n == b.n; case PdfDataType::Real: return a.d == b.d; case PdfDataType::String: case PdfDataType::Name: return a.s == b.s; case PdfDataType::Reference: return a.no == b.no && a.gen == b.gen;
        case PdfDataType::Array: if (a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); i++) if (!eq(a.a[i], b.a[i])) return false; return true;
        case PdfDataType::Dictionary: { if (a.m.size() != b.m.size()) return false; for (auto& x : a.m) { auto it = b.m.find(x.first); if (it == b.m.end() || !eq(x.second, it->second)) return false; } return true; } default: return true; } }
// what an accessor gives: 0 fails, 1 succeeds
template <typename F> static int got(F f) { try { f(); return 1; } catch (PdfError& e) { if (e.GetError() != PdfErrorCode::InvalidDataType) vt::fail("error %d instead of a wrong type", (int)e.GetError()); return 0; } }
template <typename O> static void is(O& o, const V& v, const char* what) {   // the value has exactly this type and content
    const O& c = o;
    if (o.GetDataType() != v.t) { vt::fail("%s: type %s", what, o.GetDataTypeString()); return; }
    bool B = v.t == PdfDataType::Bool, N = v.t == PdfDataType::Number, R = v.t == PdfDataType::Real, S = v.t == PdfDataType::String, M = v.t == PdfDataType::Name, A = v.t == PdfDataType::Array, D = v.t == PdfDataType::Dictionary, F = v.t == PdfDataType::Reference;
    if (o.IsBool() != B || o.IsNumber() != N || o.IsRealStrict() != R || o.IsNumberOrReal() != (N || R) || o.IsString() != S || o.IsName() != M || o.IsArray() != A || o.IsDictionary() != D || o.IsReference() != F || o.IsNull() != (v.t == PdfDataType::Null) || o.IsRawData()) vt::fail("%s: an Is function is wrong for %s", what, o.GetDataTypeString());
    bool b = !v.n; int64_t n = 77; double d = -77; PdfString s("old"); const PdfString* ps = nullptr; PdfName m("old"); const PdfName* pm = nullptr; PdfReference f(7, 7); const PdfArray* pa = nullptr; PdfArray* ma = nullptr; const PdfDictionary* pd = nullptr; PdfDictionary* md = nullptr;
    #define CHECK(name, ok, expr, tr, same) { int g = got([&] { if (!(expr)) vt::fail("%s: Get" name " gives another content", what); }); if (g != (ok)) vt::fail("%s: Get" name " %s on %s", what, g ? "succeeds" : "raises", o.GetDataTypeString()); bool t = tr; if (t != (ok)) vt::fail("%s: TryGet" name " is %d on %s", what, t, o.GetDataTypeString()); if (t && !(same)) vt::fail("%s: TryGet" name " gives another content", what); }
    CHECK("Bool", B, o.GetBool() == (v.n != 0), o.TryGetBool(b), b == (v.n != 0))
    CHECK("Number", N, o.GetNumber() == v.n, o.TryGetNumber(n), n == v.n)
    CHECK("Reference", F, o.GetReference() == PdfReference(v.no, v.gen) && o.GetReference().ObjectNumber() == v.no && o.GetReference().GenerationNumber() == v.gen, o.TryGetReference(f), f.ObjectNumber() == v.no && f.GenerationNumber() == v.gen)
    CHECK("Real", N || R, o.GetReal() == (N ? (double)v.n : v.d), o.TryGetReal(d), d == (N ? (double)v.n : v.d))
    CHECK("RealStrict", R, o.GetRealStrict() == v.d, o.TryGetRealStrict(d), d == v.d)
    if (!R || std::fabs(v.d) < 9e18) CHECK("NumberLenient", N || R, o.GetNumberLenient() == (N ? v.n : (int64_t)std::round(v.d)), o.TryGetNumberLenient(n), n == (N ? v.n : (int64_t)std::round(v.d)))
    CHECK("String", S, o.GetString().GetString() == v.s, o.TryGetString(ps), ps->GetString() == v.s)
    CHECK("String", S, o.GetString().GetString() == v.s, o.TryGetString(s), s.GetString() == v.s)
    CHECK("Name", M, o.GetName().GetString() == v.s, o.TryGetName(pm), pm->GetString() == v.s)
    CHECK("Name", M, o.GetName().GetString() == v.s, o.TryGetName(m), m.GetString() == v.s)
    CHECK("Array", A, o.GetArray().size() == v.a.size() && &o.GetArray() == &c.GetArray(), o.TryGetArray(ma), ma == &c.GetArray() && c.TryGetArray(pa) && pa == ma)
    CHECK("Dictionary", D, o.GetDictionary().GetSize() == v.m.size() && &o.GetDictionary() == &c.GetDictionary(), o.TryGetDictionary(md), md == &c.GetDictionary() && c.TryGetDictionary(pd) && pd == md)
    if (!A && c.TryGetArray(pa)) vt::fail("%s: TryGetArray (const) succeeds", what);
    if (!D && c.TryGetDictionary(pd)) vt::fail("%s: TryGetDictionary (const) succeeds", what);
    if (A) for (unsigned i = 0; i < v.a.size() && i < c.GetArray().size(); i++) is(o.GetArray()[i], v.a[i], what);
    if (D) for (auto& x : v.m) { auto p = o.GetDictionary().GetKey(x.first); if (!p) vt::fail("%s: key %s is lost", what, x.first.c_str()); else is(*p, x.second, what); } }
template <typename A, typename B> static void cmp(const A& a, const B& b, bool e, const char* what) {
    if ((a == b) != e) vt::fail("%s: == is %d for %s and %s", what, a == b, a.GetDataTypeString(), b.GetDataTypeString());
    if ((a != b) == e) vt::fail("%s: != is %d for %s and %s", what, a != b, a.GetDataTypeString(), b.GetDataTypeString()); }
void vt_case(const std::string& c) {
    auto p = vt::split(c);
    V a = value(p[1]); PdfVariant va = build(a); PdfObject oa(va);
    if (p[0] == "acc") { is(va, a, "variant"); is(oa, a, "object"); return; }
    if (p[0] == "pair") {
        V b = value(p[2]); PdfVariant vb = build(b); PdfObject ob(vb); bool e = eq(a, b);
        cmp(va, vb, e, "variants"); cmp(vb, va, e, "variants"); cmp(oa, ob, e, "objects"); cmp(ob, oa, e, "objects"); cmp(oa, vb, e, "object, variant"); cmp(va, va, true, "itself"); cmp(oa, oa, true, "itself");
        PdfVariant copy(va); cmp(copy, va, true, "copy"); cmp(copy, vb, e, "copy");
        if (a.t == PdfDataType::Reference && b.t == a.t) { PdfReference x(a.no, a.gen), y(b.no, b.gen); bool lt = a.no < b.no || (a.no == b.no && a.gen < b.gen); if ((x == y) != e || (x != y) == e || (x < y) != lt) vt::fail("reference comparison"); if (x.IsIndirect() != (a.no != 0 || a.gen != 0)) vt::fail("IsIndirect"); }
        if (a.t == PdfDataType::Name && b.t == a.t) { if ((va.GetName() == vb.GetName()) != e || (va.GetName() != vb.GetName()) == e || (va.GetName() == b.s) != e || (va.GetName() < vb.GetName()) != (a.s < b.s)) vt::fail("name comparison"); }
        if (a.t == PdfDataType::String && b.t == a.t) { if ((va.GetString() == vb.GetString()) != e || (va.GetString() != vb.GetString()) == e || (va.GetString() == b.s) != e) vt::fail("string comparison"); }
        if (a.t == PdfDataType::Array && b.t == a.t && ((va.GetArray() == vb.GetArray()) != e || (va.GetArray() != vb.GetArray()) == e)) vt::fail("array comparison");
        if (a.t == PdfDataType::Dictionary && b.t == a.t && ((va.GetDictionary() == vb.GetDictionary()) != e || (va.GetDictionary() != vb.GetDictionary()) == e)) vt::fail("dictionary comparison");
        is(va, a, "after comparing"); return; }
    if (p[0] == "set") {
        int k = atoi(p[2].c_str()); V w = a; bool ok = false;
        auto set = [&](auto& o) { switch (k) {
            case 0: case 1: ok = a.t == PdfDataType::Bool; w.n = ok ? k : a.n; return got([&] { o.SetBool(k); });
            case 2: case 3: ok = a.t == PdfDataType::Number || a.t == PdfDataType::Real; if (a.t == PdfDataType::Number) w.n = k == 2 ? -5 : (int64_t)1 << 40; else if (ok) w.d = k == 2 ? -5.0 : (double)((int64_t)1 << 40); return got([&] { o.SetNumber(k == 2 ? -5 : (int64_t)1 << 40); });
            case 4: case 5: ok = a.t == PdfDataType::Number || a.t == PdfDataType::Real; if (a.t == PdfDataType::Number) w.n = k == 4 ? 3 : -7; else if (ok) w.d = k == 4 ? 2.5 : -7.25; return got([&] { o.SetReal(k == 4 ? 2.5 : -7.25); });
            case 6: ok = a.t == PdfDataType::String; if (ok) w.s = "new"; return got([&] { o.SetString(PdfString("new")); });
            case 7: ok = a.t == PdfDataType::Name; if (ok) w.s = "new"; return got([&] { o.SetName(PdfName("new")); });
            default: ok = a.t == PdfDataType::Reference; if (ok) { w.no = 12; w.gen = 3; } return got([&] { o.SetReference(PdfReference(12, 3)); }); } };
        int g = set(va); if (g != ok) vt::fail("setter %d %s on %s", k, g ? "succeeds" : "raises", va.GetDataTypeString()); is(va, w, "after setting");
        g = set(oa); if (g != ok) vt::fail("setter %d %s on an object with %s", k, g ? "succeeds" : "raises", oa.GetDataTypeString()); is(oa, w, "after setting"); return; }
    if (p[0] == "move") {
        V b = value(p[2]); PdfVariant vb = build(b); PdfObject ob(vb);
        { PdfVariant x(va); is(x, a, "copy"); is(va, a, "copied from"); PdfVariant y(std::move(x)); is(y, a, "moved"); is(x, pool[0], "moved from"); x = y; is(x, a, "assigned over null"); x = vb; is(x, b, "assigned"); is(vb, b, "assigned from"); y = std::move(x); is(y, b, "move assigned"); is(x, pool[0], "move assigned from"); is(va, a, "untouched"); }
        { PdfObject x(oa); is(x, a, "copy"); is(oa, a, "copied from"); PdfObject y(std::move(x)); is(y, a, "moved"); x = y; is(x, a, "assigned"); x = ob; is(x, b, "assigned"); is(ob, b, "assigned from"); y = std::move(x); is(y, b, "move assigned"); is(oa, a, "untouched"); }
        return; }
    // self
    { PdfVariant x(va); auto& r = x; x = r; is(x, a, "assigned from itself"); x = std::move(r); is(x, a, "moved from itself"); }
    if (a.t == PdfDataType::Array && a.a.size()) { PdfVariant x(va); x = x.GetArray()[0].GetVariant(); is(x, a.a[0], "assigned from its part"); PdfVariant y(va); y = std::move(const_cast<PdfVariant&>(y.GetArray()[0].GetVariant())); is(y, a.a[0], "moved from its part"); }
    if (a.t == PdfDataType::Dictionary && a.m.size()) { PdfVariant x(va); x = x.GetDictionary().GetKey(a.m.begin()->first)->GetVariant(); is(x, a.m.begin()->second, "assigned from its part"); }
}
void vt_run(int depth, vt::Rng& rng) {
    fill(); int n = (int)pool.size(); auto S = [](uint64_t i) { return std::to_string(i); };
    for (int i = 0; i < n; i++) { vt::go("acc:" + S(i)); vt::go("self:" + S(i)); for (int k = 0; k < 9; k++) vt::go("set:" + S(i) + ":" + S(k)); for (int j = 0; j < n; j++) { vt::go("pair:" + S(i) + ":" + S(j)); vt::go("move:" + S(i) + ":" + S(j)); } }
    for (int i = 0; i < (depth ? 60000 : 3000); i++) {
        std::string r = "r" + S(rng.below(1 << 30)), q = rng.chance(30) ? r : rng.chance(60) ? r + "+" : "r" + S(rng.below(1 << 30));
        vt::go("acc:" + r); vt::go("self:" + r); vt::go("pair:" + r + ":" + q); vt::go("move:" + r + ":" + q); vt::go("set:" + r + ":" + S(rng.below(9))); }
}
