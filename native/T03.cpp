#include "vt.h"
#include <pdfmm/base/PdfCMapEncoding.h>
#include <pdfmm/base/PdfIdentityEncoding.h>
#include <pdfmm/base/PdfCharCodeMap.h>
#include <map>
#include <algorithm>
using namespace mm;
// code:<code>:<width>   written, cut, read       text:<width>:<hex>   cut by an identity encoding      map:<seed>   a CMap text read, mixed codes cut
// range:<seed>   CMap with ranges      export:<what>   exported CMap entries read back       width:<code>    bad:<hex cmap>
static std::string be(unsigned c, int w) { std::string r; for (int j = w - 1; j >= 0; j--) r += (char)(c >> (8 * j)); return r; }
static std::string hx(unsigned c, int w) { char t[20]; snprintf(t, sizeof t, "%0*X", 2 * w, c); return t; }
static unsigned lim(int w) { return w == 4 ? 0xFFFFFFFFu : (1u << (8 * w)) - 1; }
static int least(unsigned c) { return c > 0xFFFFFF ? 4 : c > 0xFFFF ? 3 : c > 0xFF ? 2 : 1; }
struct Doc { PdfMemDocument d; PdfObject* o; Doc() { o = &d.GetObjects().CreateDictionaryObject(); } std::unique_ptr<PdfEncodingMap> cmap(const std::string& s) { o->GetOrCreateStream().SetData(bufferview(s.data(), s.size())); return PdfCMapEncoding::CreateFromObject(*o); } };
using Map = std::map<std::pair<int, unsigned>, std::vector<char32_t>>;    // width and code -> text
static std::string u16(const std::vector<char32_t>& t) { std::string r; char b[16]; for (char32_t c : t) { if (c >= 0x10000) { snprintf(b, sizeof b, "%04X%04X", 0xD800 + ((c - 0x10000) >> 10), 0xDC00 + ((c - 0x10000) & 0x3FF)); } else snprintf(b, sizeof b, "%04X", (unsigned)c); r += b; } return r; }
static void check(const PdfEncodingMap& m, const Map& want, vt::Rng& r) {
    std::vector<char32_t> cp;
    for (auto& p : want) { if (!m.TryGetCodePoints(PdfCharCode(p.first.second, p.first.first), cp) || cp != p.second) { vt::fail("code %X of width %d is not read with its text", p.first.second, p.first.first); return; } }
    for (int k = 0; k < 10 && !want.empty(); k++) {   // a text of several codes is cut into them again; no code is prefix of another in these maps
        std::vector<Map::const_iterator> seq; std::string t; for (unsigned i = 0, n = 1 + r.below(6); i < n; i++) { auto it = want.begin(); std::advance(it, r.below(want.size())); seq.push_back(it); t += be(it->first.second, it->first.first); }
        std::unique_ptr<char[]> h(new char[t.size()]); memcpy(h.get(), t.data(), t.size()); std::string_view v(h.get(), t.size()); auto it = v.begin(), end = v.end();
        for (auto& s : seq) { auto old = it; if (!m.TryGetNextCodePoints(it, end, cp) || cp != s->second || it - old != s->first.first) { vt::fail("code %X of width %d is not cut out of %s", s->first.second, s->first.first, vt::hex(t).c_str()); return; } }
        if (it != end) vt::fail("text left"); }
    for (auto& p : want) { PdfCharCode c; bool unique = true; for (auto& q : want) if (&q != &p && q.second == p.second) unique = false;
        if (!unique || (p.second.size() > 1 && !m.HasLigaturesSupport())) continue;
        bool ok = p.second.size() == 1 ? m.TryGetCharCode(p.second[0], c) : m.TryGetCharCode(unicodeview(p.second.data(), p.second.size()), c);
        if (!ok || c.Code != p.first.second || c.CodeSpaceSize != p.first.first) { vt::fail("text of code %X of width %d has another code %X %d %d", p.first.second, p.first.first, c.Code, c.CodeSpaceSize, ok); return; } } }
void vt_case(const std::string& c) {
    auto p = vt::split(c);
    if (p[0] == "width") { unsigned v = strtoul(p[1].c_str(), 0, 10); PdfCharCode k(v); if (k.Code != v || k.CodeSpaceSize != least(v)) vt::fail("code %u has width %d", v, k.CodeSpaceSize); return; }
    if (p[0] == "code") {
        unsigned v = strtoul(p[1].c_str(), 0, 10); int w = atoi(p[2].c_str()); PdfCharCode k(v, w); std::string t = "x\0y"; t.push_back(0); std::string pre = t; k.AppendTo(t); if (t != pre + be(v, w)) vt::fail("bytes are %s", vt::hex(t).c_str());
        std::string h; k.WriteHexTo(h); if (h != "<" + hx(v, w) + ">") vt::fail("written as %s", h.c_str()); h = "abc"; k.WriteHexTo(h, false); if (h != hx(v, w)) vt::fail("written as %s", h.c_str());
        PdfIdentityEncoding id((unsigned char)w); PdfCharCode g; if (!id.TryGetCharCode((char32_t)v, g) || !(g == k)) vt::fail("identity encoding gives %X width %d", g.Code, g.CodeSpaceSize);
        std::string b = be(v, w); std::string_view bv(b); auto it = bv.begin(), end = bv.end(); PdfCID cid; if (!id.TryGetNextCID(it, end, cid) || cid.Id != v || !(cid.Unit == k) || it != end) vt::fail("cut into %X width %d", cid.Unit.Code, cid.Unit.CodeSpaceSize);
        for (int o = 1; o <= 4; o++) { PdfIdentityEncoding io((unsigned char)o); if (io.TryGetCharCode((char32_t)v, g) != (v <= lim(o))) vt::fail("code %X in %d bytes", v, o); auto& l = io.GetLimits(); if (l.LastChar.Code != lim(o) || l.FirstChar.Code != 0 || l.MinCodeSize != o || l.MaxCodeSize != o) vt::fail("limits of %d bytes end at %X", o, l.LastChar.Code); }
        return; }
    if (p[0] == "text") {
        int w = atoi(p[1].c_str()); std::string t = vt::unhex(p[2]); std::unique_ptr<char[]> h(new char[t.size() + 1]); memcpy(h.get(), t.data(), t.size()); std::unique_ptr<char[]> hh(new char[t.size() ? t.size() : 1]); memcpy(hh.get(), t.data(), t.size());
        std::string_view v(hh.get(), t.size()); auto it = v.begin(), end = v.end(); PdfIdentityEncoding id((unsigned char)w); size_t at = 0; PdfCID cid;
        while (true) { auto old = it; bool ok = id.TryGetNextCID(it, end, cid); if (ok != (t.size() - at >= (size_t)w)) { vt::fail("code %s", ok ? "beyond the end" : "missing"); return; } if (!ok) { if (it != old) vt::fail("position moved"); break; }
            unsigned x = 0; for (int j = 0; j < w; j++) x = x << 8 | (unsigned char)t[at + j]; if (cid.Id != x || cid.Unit.Code != x || cid.Unit.CodeSpaceSize != w) vt::fail("code %X at %zu is %X", x, at, cid.Unit.Code); at += w; }
        return; }
    static Doc d;
    if (p[0] == "bad") { try { d.cmap(vt::unhex(p[1])); } catch (PdfError&) { } return; }
    vt::Rng r(atoi(p[1].c_str())); Map want;
    if (p[0] == "export") {
        std::string out = "1 begincodespacerange\n"; charbuff temp; PdfStringStream ss; auto run = [&](const PdfEncodingMap& m) { StringStreamDevice dev(out, DeviceAccess::Write, true); m.AppendCodeSpaceRange(dev, temp); dev.Write("\nendcodespacerange\n"); m.AppendToUnicodeEntries(dev, temp); dev.Write("\n"); };
        if (p[2] == "id") { int w = 1 + r.below(2); PdfIdentityEncoding id((unsigned char)w); run(id); char e[64]; snprintf(e, sizeof e, "<%s><%s>", hx(0, w).c_str(), hx(lim(w), w).c_str()); if (out.find(e) == std::string::npos) vt::fail("exported as %s", out.substr(0, 100).c_str()); return; }
        if (p[2] == "one") { auto b = PdfEncodingMapFactory::WinAnsiEncodingInstance(); run(*b); std::vector<char32_t> cp; for (unsigned i = 0; i < 256; i++) { b->TryGetCodePoints(PdfCharCode(i, 1), cp); want[{1, i}] = cp; } }
        else { PdfCharCodeMap m; for (int i = 0, n = 1 + r.below(40); i < n; i++) { int w = 1 + r.below(4); unsigned v = (unsigned)r.next() & lim(w); std::vector<char32_t> t; for (unsigned j = 0, k = 1 + (r.below(4) ? 0 : r.below(3)); j < k; j++) t.push_back(r.chance(20) ? 0x10000 + r.below(0x1000) : 1 + r.below(0xD000)); m.PushMapping(PdfCharCode(v, w), codepointview(t.data(), t.size())); want[{w, v}] = t; } PdfCMapEncoding e(std::move(m)); run(e); }
        auto back = d.cmap(out); std::vector<char32_t> cp; if (back->GetType() != PdfEncodingMapType::CMap) return;
        for (auto& q : want) if (q.second[0] && (!back->TryGetCodePoints(PdfCharCode(q.first.second, q.first.first), cp) || cp != q.second)) { vt::fail("code %X of width %d is not exported with its text", q.first.second, q.first.first); return; }
        return; }
    // prefix free by first byte: 1 byte codes 00-3F, 2 byte codes 40.., 3 byte codes 80.., 4 byte codes C0..
    std::string s = "1 begincodespacerange\n<00> <3F>\nendcodespacerange\n"; auto pick = [&](int& w, unsigned& v) { w = 1 + r.below(4); v = (unsigned)r.next() & lim(w); v &= ~(0xC0u << (8 * (w - 1))); v |= (unsigned)(w - 1) << (8 * (w - 1) + 6); };
    auto text = [&](bool lig) { std::vector<char32_t> t; for (unsigned j = 0, k = 1 + (lig && r.chance(40) ? 1 + r.below(3) : 0); j < k; j++) t.push_back(r.chance(20) ? 0x10000 + r.below(0x10000) : 0x20 + r.below(0xD000)); return t; };
    if (p[0] == "map") { int n = 1 + r.below(30); s += std::to_string(n) + " beginbfchar\n"; for (int i = 0; i < n; i++) { int w; unsigned v; pick(w, v); auto t = text(true); s += "<" + hx(v, w) + "> <" + u16(t) + ">\n"; want[{w, v}] = t; } s += "endbfchar\n"; }
    else { int n = 1 + r.below(8); s += std::to_string(n) + " beginbfrange\n"; for (int i = 0; i < n; i++) { int w; unsigned v; pick(w, v); v &= ~0xFu; unsigned len = 1 + r.below(16); s += "<" + hx(v, w) + "> <" + hx(v + len - 1, w) + "> "; if (r.chance(40)) { s += "["; for (unsigned j = 0; j < len; j++) { auto t = text(true); s += "<" + u16(t) + ">"; want[{w, v + j}] = t; } s += "]\n"; } else { auto t = text(true); t.back() &= ~0xFu; if (!t.back()) t.back() = 0x20; s += "<" + u16(t) + ">\n"; for (unsigned j = 0; j < len; j++) { auto x = t; x.back() += j; want[{w, v + j}] = x; } } } s += "endbfrange\n"; }
    auto m = d.cmap(s); check(*m, want, r); }
void vt_run(int depth, vt::Rng& r) {
    for (unsigned v = 0; v < 256; v++) for (int w = 1; w <= 4; w++) vt::go("code:" + std::to_string(v) + ":" + std::to_string(w));
    for (unsigned v = 256; v < 65536; v += depth ? 1 : 7) for (int w = 2; w <= 4; w++) vt::go("code:" + std::to_string(v) + ":" + std::to_string(w));
    for (int i = 0; i < (depth ? 200000 : 20000); i++) { int w = 3 + r.below(2); vt::go("code:" + std::to_string((unsigned)r.next() & lim(w)) + ":" + std::to_string(w)); }
    for (unsigned b = 0; b < 32; b++) for (int d = -2; d <= 2; d++) vt::go("width:" + std::to_string((1u << b) + d)); vt::go("width:0"); vt::go("width:4294967295");
    for (int w = 1; w <= 4; w++) for (int n = 0; n < 14; n++) for (int k = 0; k < 20; k++) vt::go("text:" + std::to_string(w) + ":" + vt::hex(r.bytes(n)));
    for (int i = 0; i < (depth ? 40000 : 4000); i++) { vt::go("map:" + std::to_string(i)); vt::go("range:" + std::to_string(i)); if (i % 4 == 0) vt::go("export:" + std::to_string(i) + ":map"); }
    for (int i = 0; i < 20; i++) vt::go("export:" + std::to_string(i) + ":id"); vt::go("export:0:one");
    for (const char* s : { "1 beginbfrange <00> <05> [<0041>] endbfrange", "1 beginbfchar -1 <0041> endbfchar", "1 beginbfchar <0102030405> <0041> endbfchar", "1 beginbfchar <> <0041> endbfchar", "1 beginbfchar <01> <> endbfchar", "1 beginbfrange <01> <02> <> endbfrange", "1 begincidrange <01> <02> -1 endcidrange", "1 begincidchar <01> 5 endcidchar", "1 begincodespacerange <000000000000> <00> endcodespacerange", "1 beginbfchar 99999999999 <0041> endbfchar" }) vt::go(std::string("bad:") + vt::hex(s)); }
