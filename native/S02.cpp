#include "vt.h"
#include <pdfmm/private/PdfDeclarationsPrivate.h>
#include <pdfmm/base/PdfTokenizer.h>
#include <pdfmm/base/PdfStreamDevice.h>
using namespace mm;
// raw:<hex of the bytes>:<0 literal, 1 hex>:<tail hex>   lit:<hex of a text after '('>   hex:<hex of a text after '<'>
static std::string written(const PdfString& n) { charbuff buf, tmp; BufferStreamDevice d(buf); n.Write(d, PdfWriteFlags::None, PdfStatefulEncrypt(), tmp); return buf; }
// independent reader of a literal string; end: bytes consumed
static std::string literal(const std::string& t, size_t& end) {
    std::string o; int depth = 0; size_t i = 0;
    while (i < t.size()) {
        unsigned char c = t[i++];
        if (c == ')') { if (depth-- == 0) break; o += c; }
        else if (c == '(') { depth++; o += c; }
        else if (c == '\\') {
            if (i >= t.size()) break;
            c = t[i++];
            if (c >= '0' && c <= '7') { int v = c - '0'; for (int k = 0; k < 2 && i < t.size() && t[i] >= '0' && t[i] <= '7'; k++) v = v * 8 + (t[i++] - '0'); o += (char)v; }
            else if (c == '\r') { if (i < t.size() && t[i] == '\n') i++; }
            else if (c == '\n') { }
            else { const char* p = strchr("nrtbf", c); o += c && p ? "\n\r\t\b\f"[p - "nrtbf"] : (char)c; }
        } else o += c;
    }
    end = i; return o;
}
static std::string hexa(const std::string& t, size_t& end) {
    std::string d; size_t i = 0;
    while (i < t.size()) { char c = t[i++]; if (c == '>') break; if (isxdigit((unsigned char)c)) d += c; }
    end = i; if (d.size() % 2) d += '0'; return vt::unhex(d);
}
static void check(const std::string& text, const std::string& want, bool hx, size_t end) {
    PdfTokenizer t; SpanStreamDevice dev(bufferview(text.data(), text.size())); PdfVariant v;
    if (!t.TryReadNextVariant(dev, v) || !v.IsString()) { vt::fail("not read back as a string"); return; }
    const PdfString& s = v.GetString();
    if (s.GetRawData() != want) vt::fail("reads as %s, expected %s", vt::hex(s.GetRawData()).substr(0, 300).c_str(), vt::hex(want).substr(0, 300).c_str());
    if (s.IsHex() != hx) vt::fail("kind is %d", (int)s.IsHex());
    if (dev.GetPosition() != end) vt::fail("stops at %zu, expected %zu", dev.GetPosition(), end);
}
void vt_case(const std::string& c) {
    auto p = vt::split(c); std::string raw = vt::unhex(p[1]); size_t end;
    if (p[0] == "lit") { auto w = literal(raw, end); check("(" + raw, w, false, end + 1); return; }
    if (p[0] == "hex") { if (!raw.empty() && raw[0] == '<') return; auto w = hexa(raw, end); check("<" + raw, w, true, end + 1); return; }
    bool hx = p[2] == "1"; PdfString s = PdfString::FromRaw(bufferview(raw.data(), raw.size()), hx);
    std::string w = written(s);
    if (w.size() < 2 || w[0] != (hx ? '<' : '(')) { vt::fail("written form is %s", w.substr(0, 100).c_str()); return; }
    std::string o = hx ? hexa(w.substr(1), end) : literal(w.substr(1), end);
    if (o != raw || end + 1 != w.size()) { vt::fail("written form %s denotes %s", vt::hex(w).substr(0, 300).c_str(), vt::hex(o).substr(0, 300).c_str()); return; }
    check(w + (p.size() > 3 ? vt::unhex(p[3]) : ""), raw, hx, w.size());
    // a string that was evaluated as text is written so that it is read back with the same text and kind
    std::string txt = s.GetString(); std::string w2 = written(s);
    PdfTokenizer t; SpanStreamDevice dev(bufferview(w2.data(), w2.size())); PdfVariant v;
    if (s.GetState() == PdfStringState::Ascii) { if (!t.TryReadNextVariant(dev, v) || !v.IsString() || v.GetString().GetString() != txt || v.GetString().IsHex() != hx) vt::fail("text %s is read back differently", txt.substr(0, 100).c_str()); }
}
void vt_run(int depth, vt::Rng& rng) {
    for (int h = 0; h < 2; h++) {
        std::string H = h ? ":1" : ":0"; vt::go("raw:" + H); vt::go("raw:" + H + ":3e");
        for (int a = 0; a < 256; a++) vt::go("raw:" + vt::hex(std::string(1, (char)a)) + H + ":29");
        for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) { std::string s; s += (char)a; s += (char)b; vt::go("raw:" + vt::hex(s) + H); }
    }
    const std::string al("()\\\r\n13n8a", 10);
    size_t L = depth ? 6 : 4;
    for (size_t n = 0; n <= L; n++) { size_t tot = 1; for (size_t i = 0; i < n; i++) tot *= al.size();
        for (size_t x = 0; x < tot; x++) { std::string t; size_t y = x; for (size_t i = 0; i < n; i++) { t += al[y % al.size()]; y /= al.size(); } vt::go("lit:" + vt::hex(t)); if (n < 4) vt::go("lit:" + vt::hex(t + ")x")); } }
    for (int a = 0; a < 256; a++) { vt::go("lit:" + vt::hex(std::string("\\") + (char)a + ")")); vt::go("lit:" + vt::hex(std::string("x\\") + (char)a + "7)")); vt::go("lit:" + vt::hex(std::string("\\3") + (char)a + "7)")); vt::go("hex:" + vt::hex(std::string("4") + (char)a + "1>")); vt::go("lit:" + vt::hex(std::string("\\37") + (char)a + "7)")); }
    for (int i = 0; i < (depth ? 100000 : 10000); i++) {
        std::string s; int n = rng.below(rng.chance(10) ? 5000 : 30); int m = rng.below(3);
        for (int k = 0; k < n; k++) s += m == 0 ? (char)rng.next() : m == 1 ? "()\\\r\n\t\b\f0127a\0"[rng.below(15)] : (char)(32 + rng.below(95));
        vt::go("raw:" + vt::hex(s) + (rng.chance(50) ? ":1:29" : ":0:3e")); vt::go("lit:" + vt::hex(s + ")")); vt::go("hex:" + vt::hex(s.size() > 1 ? s : "4>"));
        std::string h; for (int k = 0; k < n; k++) h += "0123456789abcdefABCDEF \n\r\t"[rng.below(26)]; vt::go("hex:" + vt::hex(h + ">5"));
    }
}
