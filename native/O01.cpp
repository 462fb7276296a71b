#include "vt.h"
#include <pdfmm/base/PdfContentsReader.h>
#include <pdfmm/base/PdfOperatorUtils.h>
#include <pdfmm/base/PdfStreamDevice.h>
#include <map>
using namespace mm;
// text:<hex>   op:<value>   stream:<seed>   content streams of random operators with their operands
struct Row { const char* kw; PdfOperator op; int n; };
#define R(x, n) { #x, PdfOperator::x, n }
static const Row rows[] = { R(w,1),R(J,1),R(j,1),R(M,1),R(d,2),R(ri,1),R(i,1),R(gs,1),R(q,0),R(Q,0),R(cm,6),R(m,2),R(l,2),R(c,6),R(v,4),R(y,4),R(h,0),R(re,4),R(S,0),R(s,0),R(f,0),R(F,0),{"f*",PdfOperator::f_Star,0},R(B,0),{"B*",PdfOperator::B_Star,0},R(b,0),{"b*",PdfOperator::b_Star,0},R(n,0),R(W,0),{"W*",PdfOperator::W_Star,0},R(BT,0),R(ET,0),R(Tc,1),R(Tw,1),R(Tz,1),R(TL,1),R(Tf,2),R(Tr,1),R(Ts,1),R(Td,2),R(TD,2),R(Tm,6),{"T*",PdfOperator::T_Star,0},R(Tj,1),R(TJ,1),{"'",PdfOperator::Quote,1},{"\"",PdfOperator::DoubleQuote,3},R(d0,2),R(d1,6),R(CS,1),R(cs,1),R(SC,-1),R(SCN,-1),R(sc,-1),R(scn,-1),R(G,1),R(g,1),R(RG,3),R(rg,3),R(K,4),R(k,4),R(sh,1),R(BI,0),R(ID,0),R(EI,0),R(Do,1),R(MP,1),R(DP,2),R(BMC,1),R(BDC,2),R(EMC,0),R(BX,0),R(EX,0) };
static const Row* byText(const std::string& s) { for (auto& r : rows) if (s == r.kw) return &r; return nullptr; }
static const Row* byOp(int64_t v) { for (auto& r : rows) if (v == (int64_t)r.op) return &r; return nullptr; }
void vt_case(const std::string& c) {
    auto p = vt::split(c);
    if (p[0] == "text") { std::string s = vt::unhex(p[1]); auto r = byText(s); auto op = (PdfOperator)-77; std::vector<char> exact(s.begin(), s.end()); std::string_view sv(exact.data(), exact.size()); bool ok = TryGetPdfOperator(sv, op);
        if (ok != (r != nullptr)) vt::fail("'%s' is %srecognised", s.c_str(), ok ? "" : "not "); if (ok && r && op != r->op) vt::fail("'%s' is recognised as operator %d", s.c_str(), (int)op);
        try { auto o = GetPdfOperator(sv); if (!r) vt::fail("'%s' gives an operator", s.c_str()); else if (o != r->op) vt::fail("'%s' gives operator %d", s.c_str(), (int)o); } catch (PdfError& e) { if (r || e.GetError() != PdfErrorCode::InvalidName) vt::fail("'%s' raises %d", s.c_str(), (int)e.GetError()); }
        return; }
    if (p[0] == "op") { int64_t v = strtoll(p[1].c_str(), 0, 10); auto op = (PdfOperator)(int)v; auto r = byOp((int)v); std::string_view n; int k = -99;
        bool a = TryGetPdfOperatorName(op, n), b = TryGetOperandCount(op, k);
        if (a != (r != nullptr) || (r && n != r->kw)) vt::fail("operator %d has the keyword '%s' (%d)", (int)op, std::string(n).c_str(), a); if (b != (r != nullptr) || (r && k != r->n)) vt::fail("operator %d has %d operands (%d)", (int)op, k, b);
        try { auto s = GetPdfOperatorName(op); if (!r || s != r->kw) vt::fail("operator %d has the name '%s'", (int)op, std::string(s).c_str()); } catch (PdfError& e) { if (r || e.GetError() != PdfErrorCode::InvalidEnumValue) vt::fail("name of operator %d raises %d", (int)op, (int)e.GetError()); }
        try { int x = GetOperandCount(op); if (!r || x != r->n) vt::fail("operator %d takes %d", (int)op, x); } catch (PdfError& e) { if (r || e.GetError() != PdfErrorCode::InvalidEnumValue) vt::fail("count of operator %d raises %d", (int)op, (int)e.GetError()); }
        return; }
    vt::Rng r(strtoull(p[1].c_str(), 0, 10)); std::string s; std::vector<std::pair<const Row*, int>> want;
    for (int n = 1 + r.below(30); n--;) { auto& w = rows[r.below(sizeof rows / sizeof *rows)]; if (w.op == PdfOperator::BI || w.op == PdfOperator::ID || w.op == PdfOperator::EI || w.op == PdfOperator::Do) continue;
        int k = r.chance(15) ? r.below(8) : w.n < 0 ? r.below(6) : w.n; for (int i = 0; i < k; i++) s += r.chance(50) ? std::to_string(r.below(1000)) + " " : r.chance(50) ? "/N " : "(x) "; s += w.kw; s += r.chance(50) ? "\n" : " "; want.push_back({ &w, k }); }
    PdfContentsReader rd(std::make_shared<SpanStreamDevice>(bufferview(s.data(), s.size()))); PdfContent ct; size_t i = 0;
    while (rd.TryReadNext(ct)) { if (i >= want.size()) { vt::fail("more operators than written in: %s", s.c_str()); break; } auto& w = want[i++];
        if (ct.Type != PdfContentType::Operator || ct.Operator != w.first->op || ct.Keyword != w.first->kw) vt::fail("%s is read as operator %d (%s) in: %s", w.first->kw, (int)ct.Operator, std::string(ct.Keyword).c_str(), s.c_str());
        if ((int)ct.Stack.GetSize() != w.second) vt::fail("%s has %d operands instead of %d", w.first->kw, (int)ct.Stack.GetSize(), w.second);
        auto e = w.first->n < 0 || w.second == w.first->n ? PdfContentWarnings::None : w.second < w.first->n ? PdfContentWarnings::InvalidOperator : PdfContentWarnings::SpuriousStackContent; if (ct.Warnings != e) vt::fail("%s with %d operands has warning %d", w.first->kw, w.second, (int)ct.Warnings); }
    if (i != want.size()) vt::fail("operators are missing in: %s", s.c_str()); }
void vt_run(int depth, vt::Rng& rng) {
    auto text = [](const std::string& s) { vt::go("text:" + vt::hex(s)); };
    text(""); for (int a = 0; a < 256; a++) { text(std::string(1, (char)a)); for (int b = 0; b < 256; b++) text(std::string{ (char)a, (char)b }); }
    std::string al; for (auto& r : rows) for (const char* q = r.kw; *q; q++) if (al.find(*q) == std::string::npos) al += *q;
    for (char a : al) for (char b : al) for (char d : al) text({ a, b, d });
    for (auto& r : rows) { std::string k = r.kw; for (int a = 0; a < 256; a++) { text(k + (char)a); text((char)a + k); for (size_t i = 0; i <= k.size(); i++) { auto x = k; if (i < k.size()) { x[i] = (char)a; text(x); } x = k; x.insert(i, 1, (char)a); text(x); } } for (auto& q : rows) text(k + q.kw); text(k + std::string(5, 0)); text(k + std::string(300, 'x')); }
    for (int64_t v = -2; v < 300; v++) vt::go("op:" + std::to_string(v)); for (int64_t v : { INT32_MAX, INT32_MIN, INT32_MIN + 1, 1 << 16, 65536 + 5, (1 << 24) + 7 }) vt::go("op:" + std::to_string(v)); for (int b = 0; b < 31; b++) for (int64_t v = 0; v < 80; v++) vt::go("op:" + std::to_string((1ll << b) + v));
    for (int i = 0; i < (depth ? 100000 : 5000); i++) vt::go("stream:" + std::to_string(rng.below(1 << 30))); }
