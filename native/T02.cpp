#include "vt.h"
#include <pdfmm/private/PdfEncodingPrivate.h>
#include <pdfmm/base/PdfTokenizer.h>
#include <pdfmm/base/PdfStreamDevice.h>
using namespace mm;
// text:<utf-8>:<hex string?>   kept, converted, written and read back       raw:<be|le|u8>:<utf-8>   marked text read       codes:<bytes>   PDFDocEncoding read
static const char32_t T[32] = { 0x2022, 0x2020, 0x2021, 0x2026, 0x2014, 0x2013, 0x192, 0x2044, 0x2039, 0x203A, 0x2212, 0x2030, 0x201E, 0x201C, 0x201D, 0x2018, 0x2019, 0x201A, 0x2122, 0xFB01, 0xFB02, 0x141, 0x152, 0x160, 0x178, 0x17D, 0x131, 0x142, 0x153, 0x161, 0x17E, 0 }, A[8] = { 0x2D8, 0x2C7, 0x2C6, 0x2D9, 0x2DD, 0x2DB, 0x2DA, 0x2DC };
static char32_t tab(unsigned c) { return c >= 0x18 && c < 0x20 ? A[c - 0x18] : c >= 0x80 && c < 0xA0 ? T[c - 0x80] : c == 0xA0 ? 0x20AC : c == 0x7F || c == 0xAD ? 0 : c; }
static int code(char32_t cp) { for (int c = 0; c < 256; c++) if (tab(c) == cp) return c; return -1; }
static std::string u8(char32_t c) { std::string r; if (c < 0x80) r += (char)c; else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); } else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); } return r; }
static std::u32string cps(const std::string& s) { std::u32string r; for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; char32_t v = n == 1 ? c : c & (0xFF >> (n + 1)); for (int j = 1; j < n; j++) v = v << 6 | (s[i + j] & 63); r += v; i += n; } return r; }
static std::string u16(const std::u32string& t, bool be) { std::string r; auto w = [&](unsigned x) { char h = (char)(x >> 8), l = (char)x; r += be ? h : l; r += be ? l : h; }; for (char32_t c : t) if (c < 0x10000) w(c); else { w(0xD800 + ((c - 0x10000) >> 10)); w(0xDC00 + ((c - 0x10000) & 0x3FF)); } return r; }
static std::string read(const std::string& s, std::string& raw) { PdfTokenizer t; SpanStreamDevice d(bufferview(s.data(), s.size())); PdfVariant v; t.ReadNextVariant(d, v, { }); raw = v.GetString().GetRawData(); return v.GetString().GetString(); }
static std::string tok(const PdfVariant& v) { charbuff out, tmp; BufferStreamDevice d(out); v.Write(d, PdfWriteFlags::None, { }, tmp); return out; }
void vt_case(const std::string& c) {
    auto p = vt::split(c); std::string tx = vt::unhex(p[p[0] == "raw" ? 2 : 1]);
    if (p[0] == "codes") {
        std::string want; bool ascii = true; for (unsigned char b : tx) { char32_t cp = tab(b); want += u8(cp); if (cp >= 0x80 || cp != b) ascii = false; }
        bool eq = !ascii; std::string got; ConvertPdfDocEncodingToUTF8(tx, got, eq); if (got != want || eq != ascii) vt::fail("read as %s", vt::hex(got).c_str());
        if (IsPdfDocEncodingCoincidentToUTF8(tx) != ascii) vt::fail("plain ASCII is not recognised");
        bool m = tx.substr(0, 2) == "\xFE\xFF" || tx.substr(0, 2) == "\xFF\xFE" || tx.substr(0, 3) == "\xEF\xBB\xBF"; if (m) return;
        for (bool h : { false, true }) { auto s = PdfString::FromRaw(bufferview(tx.data(), tx.size()), h); if (s.GetString() != want) vt::fail("string read as %s", vt::hex(s.GetString()).c_str()); }
        return; }
    auto t = cps(tx);
    if (p[0] == "raw") {
        std::string b = p[1] == "be" ? "\xFE\xFF" + u16(t, true) : p[1] == "le" ? "\xFF\xFE" + u16(t, false) : "\xEF\xBB\xBF" + tx;
        std::unique_ptr<char[]> e(new char[b.size()]); memcpy(e.get(), b.data(), b.size()); auto s = PdfString::FromRaw(bufferview(e.get(), b.size())); if (s.GetString() != tx) vt::fail("read as %s", vt::hex(s.GetString()).c_str());
        auto s2 = s; if (s2.GetString() != tx || !(s2 == std::string_view(tx))) vt::fail("copy differs"); return; }
    bool fit = true, ascii = true; std::string doc; for (char32_t k : t) { int x = code(k); if (x < 0) fit = false; else doc += (char)x; if (k >= 0x80 || x != (int)k) ascii = false; }
    std::unique_ptr<char[]> e(new char[tx.size() + 1]); memcpy(e.get(), tx.data(), tx.size()); std::string_view v(e.get(), tx.size());
    bool eq = !ascii; if (CheckValidUTF8ToPdfDocEcondingChars(v, eq) != fit || eq != (fit && ascii)) vt::fail("elegible %d plain %d", fit, ascii);
    std::string d = "x"; if (TryConvertUTF8ToPdfDocEncoding(v, d) != fit || d != (fit ? doc : "")) vt::fail("codes are %s", vt::hex(d).c_str());
    try { if (ConvertUTF8ToPdfDocEncoding(v) != doc || !fit) vt::fail("codes differ"); } catch (PdfError&) { if (fit) vt::fail("raises for text with codes"); }
    for (int h = 0; h < 2; h++) {
        PdfString s(v); if (s.GetString() != tx) vt::fail("string keeps %s", vt::hex(s.GetString()).c_str());
        if (h) s = PdfString::FromRaw(bufferview(), true).IsHex() ? s : s;
        std::string raw, got = read(tok(PdfVariant(s)), raw); if (got != tx) { vt::fail("written and read back as %s", vt::hex(got).c_str()); return; }
        bool uni = raw.substr(0, 2) == "\xFE\xFF"; if (!fit && !uni) vt::fail("written in PDFDocEncoding though a character has no code"); if (uni && raw != "\xFE\xFF" + u16(t, true)) vt::fail("UTF-16 is %s", vt::hex(raw).c_str()); if (!uni && raw != doc) vt::fail("codes written are %s", vt::hex(raw).c_str());
        auto f = PdfString::FromRaw(bufferview(raw.data(), raw.size()), h != 0); got = read(tok(PdfVariant(f)), raw); if (got != tx || f.GetString() != tx) vt::fail("raw written and read back as %s", vt::hex(got).c_str()); got = read(tok(PdfVariant(f)), raw); if (got != tx) vt::fail("evaluated raw written and read back as %s", vt::hex(got).c_str()); } }
void vt_run(int depth, vt::Rng& r) {
    auto all = [](const std::string& s) { auto h = vt::hex(s); vt::go("text:" + h); for (const char* k : { "be", "le", "u8" }) vt::go(std::string("raw:") + k + ":" + h); };
    for (char32_t c = 0; c < 0x110000; c += c < 0x3000 || depth ? 1 : 29) if (c < 0xD800 || c > 0xDFFF) { if (c < 0x10000 || c % 7 == 0) all(u8(c)); else vt::go("text:" + vt::hex(u8(c))); }
    for (char32_t c : { 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x103FF, 0x10400, 0x10FFFF, 0xFEFF, 0xFB01, 0xFB02, 0x2212, 0x20AC }) { all(u8(c)); all("a" + u8(c) + u8(c) + "z"); }
    for (int c = 0; c < 256; c++) { vt::go("codes:" + vt::hex(std::string(1, (char)c))); for (int d : { 0, 0x41, 0x7F, 0x80, 0xA0, 0xAD, 0xBB, 0xBF, 0xFE, 0xFF }) { vt::go("codes:" + vt::hex(std::string(1, (char)c) + (char)d)); vt::go("codes:" + vt::hex(std::string("A") + (char)c + (char)d)); } }
    for (const char* m : { "\xFE\xFF", "\xFF\xFE", "\xEF\xBB\xBF", "\xFE", "\xFF", "\xEF\xBB" }) for (const char* n : { "", "a", "ab", "abc", "\xE9", "\xE9\xE8" }) { std::string s; for (const char* q = m; *q; q++) s += u8((unsigned char)*q); for (const char* q = n; *q; q++) s += u8((unsigned char)*q); all(s); all("x" + s); all(s + u8(0x4E00)); }
    for (int i = 0; i < (depth ? 200000 : 15000); i++) {
        int kind = r.below(5); std::string s; for (unsigned n = r.below(kind == 4 ? 300 : 12); n--;) { char32_t c; do { unsigned q = kind == 4 ? r.below(4) : kind; c = q == 0 ? r.below(128) : q == 1 ? tab(r.below(256)) : q == 2 ? r.below(0x110000) : (char32_t)(0x10000 >> r.below(17)) + r.below(40); } while (c >= 0xD800 && c <= 0xDFFF); s += u8(c); }
        all(s); vt::go("codes:" + vt::hex(r.bytes(r.below(20)))); } }
