#include "vt.h"
#include <pdfmm/base/PdfParser.h>
#include <pdfmm/base/PdfXRefStreamParserObject.h>
#include <pdfmm/base/PdfXRefEntry.h>
#include <map>
using namespace mm;
// chain:<seed>  tables, streams and hybrid sections following each other, against the newest entry of every number      bad:<seed>  the same with damaged numbers, widths and counts
// stream:<w0>:<w1>:<w2>:<seed>  one stream with these widths      enlarge:<old>:<new>
struct Ent { int type; uint64_t a; uint32_t b; };
using Ref = std::map<unsigned, Ent>;
static void add(Ref& r, unsigned n, Ent e) { r.emplace(n, e); }    // newest first: known numbers stay
static std::string be(uint64_t v, int w) { std::string s; for (int j = w - 1; j >= 0; j--) s += (char)(v >> (8 * j)); return s; }
static uint64_t cut(uint64_t v, int w) { return w >= 8 ? v : v & ((1ull << (8 * w)) - 1); }
static const char* EOLS[] = { " \n", " \r", "\r\n" };
struct Sec { int kind; bool prev; std::vector<std::pair<unsigned, std::vector<Ent>>> subs; std::vector<std::pair<unsigned, std::vector<Ent>>> stm; int w[3]; };
static std::vector<std::pair<unsigned, std::vector<Ent>>> subs(vt::Rng& r, bool table, const int* w) {
    std::vector<std::pair<unsigned, std::vector<Ent>>> s; for (unsigned i = 0, n = 1 + r.below(4); i < n; i++) { std::pair<unsigned, std::vector<Ent>> x; x.first = r.below(40); for (unsigned j = 0, m = r.below(6); j < m; j++) { Ent e;
        if (table) e = { (int)r.below(2), r.next() % 10000000000ull, (uint32_t)r.below(100000) };
        else { e.type = w[0] ? (int)r.below(3) : 1; e.a = cut(r.next(), w[1]); e.b = (uint32_t)cut(r.next(), w[2]); } x.second.push_back(e); } s.push_back(x); } return s; }
static std::string table(const Sec& s, vt::Rng& r) { std::string t = "xref\n"; char b[40]; for (auto& x : s.subs) { t += std::to_string(x.first) + " " + std::to_string(x.second.size()) + (r.chance(30) ? " \r\n" : "\n"); for (auto& e : x.second) { snprintf(b, sizeof b, "%010llu %05u %c%s", (unsigned long long)e.a, e.b, e.type ? 'n' : 'f', EOLS[r.below(3)]); t += b; } } return t; }
static std::string stream(const std::vector<std::pair<unsigned, std::vector<Ent>>>& ss, const int* w, long prev, vt::Rng& r) {
    std::string d, ix; unsigned size = 0; for (auto& x : ss) { ix += std::to_string(x.first) + " " + std::to_string(x.second.size()) + " "; size = std::max<unsigned>(size, x.first + x.second.size()); for (auto& e : x.second) d += be(e.type, w[0]) + be(e.a, w[1]) + be(e.b, w[2]); }
    return "7 0 obj\n<</Type/XRef/Size " + std::to_string(size) + " /W[" + std::to_string(w[0]) + " " + std::to_string(w[1]) + " " + std::to_string(w[2]) + "]/Index[" + ix + "]" + (prev ? "/Prev " + std::to_string(prev) : "") + "/Length " + std::to_string(d.size()) + ">>\nstream\n" + d + "\nendstream\nendobj\n"; }
static void note(Ref& r, const std::vector<std::pair<unsigned, std::vector<Ent>>>& ss) { for (auto& x : ss) for (unsigned j = 0; j < x.second.size(); j++) add(r, x.first + j, x.second[j]); }
static bool load(const std::string& f, size_t off, PdfXRefEntries& out) {
    static PdfMemDocument doc; PdfParser p(doc.GetObjects()); std::unique_ptr<char[]> h(new char[f.size()]); memcpy(h.get(), f.data(), f.size()); SpanStreamDevice dev(bufferview(h.get(), f.size())); p.Reset(); p.m_PdfVersion = PdfVersion::V1_7;
    try { p.ReadXRefContents(dev, off, false); } catch (PdfError&) { out = p.m_entries; return false; } out = p.m_entries; return true; }
static void compare(PdfXRefEntries& got, const Ref& want) {
    for (auto& x : want) { if (x.first >= got.GetSize()) { vt::fail("number %u is missing", x.first); return; } auto& g = got[x.first];
        if (!g.Parsed || (int)g.Type != x.second.type || g.Unknown1 != x.second.a || g.Unknown2 != x.second.b) { vt::fail("entry %u is type %d %llu %u, recorded type %d %llu %u", x.first, (int)g.Type, (unsigned long long)g.Unknown1, g.Unknown2, x.second.type, (unsigned long long)x.second.a, x.second.b); return; } }
    for (unsigned i = 0; i < got.GetSize(); i++) if (got[i].Parsed && !want.count(i)) { vt::fail("entry %u is not recorded", i); return; } }
void vt_case(const std::string& c) {
    auto p = vt::split(c);
    if (p[0] == "enlarge") { PdfXRefEntries e; int64_t a = atoll(p[1].c_str()), b = atoll(p[2].c_str()); e.Enlarge(a); for (unsigned i = 0; i < e.GetSize(); i++) { e[i].Offset = i; e[i].Parsed = true; }
        bool ok = true; try { e.Enlarge(b); } catch (PdfError&) { ok = false; } if (ok != (b >= 0 && b <= 8388607)) vt::fail("size %lld %s", (long long)b, ok ? "accepted" : "refused"); if (e.GetSize() != (unsigned)(ok ? std::max(a, b) : a)) vt::fail("size is %u", e.GetSize());
        for (unsigned i = 0; i < e.GetSize(); i++) if (e[i].Parsed != (i < a) || (i < a && e[i].Offset != i)) vt::fail("entry %u lost", i); return; }
    if (p[0] == "stream") { int w[3] = { atoi(p[1].c_str()), atoi(p[2].c_str()), atoi(p[3].c_str()) }; vt::Rng r(atoi(p[4].c_str())); auto ss = subs(r, false, w); Ref want; note(want, ss); PdfXRefEntries got; bool empty = true; for (auto& x : ss) if (!x.second.empty()) empty = false;
        std::string f = stream(ss, w, 0, r) + "          "; bool ok = load(f, 0, got); bool wide = w[0] > 4 || w[1] > 4 || w[2] > 4, none = w[0] + w[1] + w[2] == 0; if (none) return; if (ok == wide && !(empty && wide)) { vt::fail("%s", ok ? "accepted" : "refused"); return; } if (ok) compare(got, want); return; }
    vt::Rng r(atoi(p[1].c_str())); bool bad = p[0] == "bad"; std::string f = "%PDF-1.7\n"; std::vector<std::pair<size_t, Sec>> secs; size_t prev = 0;
    for (unsigned i = 0, n = 1 + r.below(4); i < n; i++) {
        Sec s; s.kind = r.below(3); for (int k = 0; k < 3; k++) s.w[k] = k ? (int)r.below(5) : (int)r.below(3); if (s.w[1] == 0) s.w[1] = 2; size_t off, so = 0;
        if (s.kind == 1) { s.subs = subs(r, false, s.w); off = f.size(); f += stream(s.subs, s.w, (long)prev, r); }
        else { s.subs = subs(r, true, s.w); if (s.kind == 2) { s.stm = subs(r, false, s.w); so = f.size(); f += stream(s.stm, s.w, 0, r); } off = f.size(); f += table(s, r) + "trailer\n<</Size 50"; if (so) f += "/XRefStm " + std::to_string(so); if (prev) f += "/Prev " + std::to_string(prev); f += ">>\n"; }
        secs.emplace_back(off, s); prev = off; f += "% filler\n"; }
    PdfXRefEntries got;
    if (bad) {   // damage numbers
        for (unsigned i = 0, n = 1 + r.below(3); i < n; i++) { size_t at = 9 + r.below(f.size() - 9); for (int k = 0; k < 400 && !isdigit((unsigned char)f[at]); k++) at = 9 + r.below(f.size() - 9); static const char* N[] = { "-1", "9223372036854775807", "4294967296", "2147483648", "8388607", "65535", "0", "99999999999999999999", "7", "-9223372036854775808" };
            if (r.chance(50)) { size_t e = at; while (e < f.size() && isdigit((unsigned char)f[e])) e++; f.replace(at, e - at, N[r.below(10)]); } else if (r.chance(50)) f[at] = (char)r.next(); else f.erase(at, 1 + r.below(12)); }
        load(f, secs.back().first, got); return; }
    Ref want; for (auto it = secs.rbegin(); it != secs.rend(); ++it) { note(want, it->second.subs); note(want, it->second.stm); }
    if (!load(f, secs.back().first, got)) { vt::fail("refused: %s", vt::hex(f.substr(0, 600)).c_str()); return; } compare(got, want); }
void vt_run(int depth, vt::Rng& r) {
    for (int i = 0; i < (depth ? 60000 : 6000); i++) { vt::go("chain:" + std::to_string(i)); vt::go("bad:" + std::to_string(i)); }
    for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) for (int c = 0; c < 6; c++) for (int i = 0; i < (depth ? 20 : 4); i++) vt::go("stream:" + std::to_string(a) + ":" + std::to_string(b) + ":" + std::to_string(c) + ":" + std::to_string(i));
    for (long long a : { 0, 1, 5, 100 }) for (long long b : { -1ll, 0ll, 1ll, 4ll, 6ll, 101ll, 8388607ll, 8388608ll, 4294967296ll, 4294967301ll, 9223372036854775807ll, -9223372036854775807ll }) vt::go("enlarge:" + std::to_string(a) + ":" + std::to_string(b)); }
