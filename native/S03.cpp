#include "vt.h"
#include <pdfmm/private/PdfDeclarationsPrivate.h>
#include <pdfmm/base/PdfTokenizer.h>
#include <pdfmm/base/PdfStreamDevice.h>
using namespace mm;
static bool ws(unsigned char c) { return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32; }
static bool delim(unsigned char c) { return c && strchr("()<>[]{}/%", c); }
struct TokR { std::string text; PdfTokenType type; bool anytype; };
// independent tokenizer: pos is moved past the token
static bool ref(const std::string& s, size_t& pos, size_t max, TokR& r) {
    r.anytype = false;
    for (;;) {
        while (pos < s.size() && ws(s[pos])) pos++;
        if (pos < s.size() && s[pos] == '%') { while (pos < s.size() && s[pos] != '\n' && s[pos] != '\r') pos++; continue; }
        break;
    }
    if (pos >= s.size()) return false;
    char c = s[pos];
    if (c == '<' || c == '>') {
        if (pos + 1 < s.size() && s[pos + 1] == c) { r.text = std::string(2, c); r.type = c == '<' ? PdfTokenType::DoubleAngleBracketsLeft : PdfTokenType::DoubleAngleBracketsRight; pos += 2; }
        else { r.text = std::string(1, c); r.type = c == '<' ? PdfTokenType::AngleBracketLeft : PdfTokenType::AngleBracketRight; pos++; r.anytype = pos == s.size(); }
        return true;
    }
    static const char one[] = "()[]{}/"; static const PdfTokenType ty[] = { PdfTokenType::ParenthesisLeft, PdfTokenType::ParenthesisRight, PdfTokenType::SquareBracketLeft, PdfTokenType::SquareBracketRight, PdfTokenType::BraceLeft, PdfTokenType::BraceRight, PdfTokenType::Slash };
    if (const char* p = c ? strchr(one, c) : nullptr) { r.text = std::string(1, c); r.type = ty[p - one]; pos++; return true; }
    size_t b = pos;
    while (pos < s.size() && !ws(s[pos]) && !delim(s[pos]) && pos - b < max) pos++;
    r.text = s.substr(b, pos - b); r.type = PdfTokenType::Literal;
    if (pos - b < max && pos < s.size() && s[pos] == '%') while (pos < s.size() && s[pos] != '\n' && s[pos] != '\r') pos++;
    return true;
}
// tok:<token buffer size>:<hex>    class:<byte>
void vt_case(const std::string& c) {
    auto p = vt::split(c);
    if (p[0] == "class") {
        int b = atoi(p[1].c_str()); bool w = PdfTokenizer::IsWhitespace((char)b), d = PdfTokenizer::IsDelimiter((char)b), r = PdfTokenizer::IsRegular((char)b);
        if (w != ws(b) || d != delim(b) || r != (!ws(b) && !delim(b))) vt::fail("byte %d is classified white=%d delimiter=%d regular=%d", b, w, d, r);
        return;
    }
    size_t bs = atoi(p[1].c_str()); std::string s = vt::unhex(p[2]);
    PdfTokenizer t(std::make_shared<charbuff>(bs), false); SpanStreamDevice dev(bufferview(s.data(), s.size()));
    size_t pos = 0;
    for (int k = 0;; k++) {
        TokR w; bool want = ref(s, pos, bs - 1, w); std::string_view got; PdfTokenType ty;
        bool ok = t.TryReadNextToken(dev, got, ty);
        if (ok != want) { vt::fail("token %d: %s", k, want ? "missing" : "unexpected"); return; }
        if (dev.GetPosition() != pos) { vt::fail("after token %d the device is at %zu, expected %zu", k, dev.GetPosition(), pos); return; }
        if (!ok) break;
        if (got != w.text || (!w.anytype && ty != w.type)) { vt::fail("token %d is %s type %d, expected %s type %d", k, vt::hex(std::string(got)).c_str(), (int)ty, vt::hex(w.text).c_str(), (int)w.type); return; }
        if (got.data()[got.size()] != 0) { vt::fail("token %d is not zero terminated", k); return; }
    }
}
void vt_run(int depth, vt::Rng& rng) {
    for (int b = 0; b < 256; b++) vt::go("class:" + std::to_string(b));
    const std::string rep("\0\n\r %<>(/aR\x80", 12);
    for (int n = 0; n <= (depth ? 5 : 4); n++) { size_t tot = 1; for (int i = 0; i < n; i++) tot *= rep.size();
        for (size_t x = 0; x < tot; x++) { std::string t; size_t y = x; for (int i = 0; i < n; i++) { t += rep[y % rep.size()]; y /= rep.size(); } vt::go("tok:8:" + vt::hex(t)); } }
    for (int i = 0; i < (depth ? 200000 : 20000); i++) {
        std::string t; int n = rng.below(30);
        for (int k = 0; k < n; k++) switch (rng.below(6)) {
            case 0: t += rng.from(std::string("\0\t\n\f\r ", 6), rng.below(4)); break;
            case 1: t += rng.from("()<>[]{}/", 1 + rng.below(3)); break;
            case 2: t += "%" + rng.from("ab% ()", rng.below(5)) + (rng.chance(80) ? (rng.chance(50) ? "\n" : "\r") : ""); break;
            case 3: t += rng.bytes(rng.below(5)); break;
            default: t += rng.from("abcR0123.+-#~!\x7f\xff", 1 + rng.below(12)); }
        vt::go("tok:" + std::to_string(rng.chance(50) ? 3 + rng.below(12) : 4096) + ":" + vt::hex(t));
    }
    for (int d = -3; d < 4; d++) { std::string t(4095 + d, 'x'); for (auto& e : { "", " y", "%c\n1", "/", "<<" }) vt::go("tok:4096:" + vt::hex(t + e)); }
}
