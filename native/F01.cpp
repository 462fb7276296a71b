#include "filt.h"
// cases:  enc:<hex of data>:<cuts>     decode(encode(data)) == data, encode is the two upper-case digits of each byte
//         dec:<hex of text>:<cuts>     text of hex digits, white space, '>' markers
static bool ws(unsigned char c) { return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32; }
static int hv(unsigned char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'A' && c <= 'F') return c - 'A' + 10; if (c >= 'a' && c <= 'f') return c - 'a' + 10; return -1; }
static std::string oracle(const std::string& t) {
    std::string digits; for (unsigned char c : t) { if (c == '>') break; if (!ws(c)) digits += c; }
    if (digits.size() & 1) digits += '0';
    std::string o; for (size_t i = 0; i < digits.size(); i += 2) o += (char)(hv(digits[i]) * 16 + hv(digits[i + 1]));
    return o;
}
void vt_case(const std::string& c) {
    auto p = vt::split(c); std::string d = vt::unhex(p[1]); auto cuts = cutsOf(p.size() > 2 ? p[2] : "");
    if (p[0] == "enc") {
        auto e = filt(PdfFilterType::ASCIIHexDecode, false, d, cuts);
        std::string want; char b[3]; for (unsigned char ch : d) { snprintf(b, 3, "%02X", ch); want += b; }
        if (e.err) vt::fail("encoding failed");
        std::string digits; for (unsigned char ch : e.out) if (!ws(ch) && ch != '>') { if (hv(ch) < 0) { vt::fail("encoder wrote a byte that is no hex digit: %s", vt::hex(e.out).c_str()); return; } }
        auto r = filt(PdfFilterType::ASCIIHexDecode, true, e.out, {});
        if (r.err || r.out != d) vt::fail("round trip gives %s", vt::hex(r.out).c_str());
        auto o = oracle(e.out);
        if (o != d) vt::fail("encoded text denotes %s", vt::hex(o).c_str());
        charbuff eb; auto f = PdfFilterFactory::Create(PdfFilterType::ASCIIHexDecode); f->EncodeTo(eb, bufferview(d.data(), d.size()));
        if (eb != e.out) vt::fail("encoding depends on the blocks");
    } else {
        auto want = oracle(d);
        auto r = filt(PdfFilterType::ASCIIHexDecode, true, d, cuts);
        if (r.err || r.out != want) vt::fail("decodes to %s%s, expected %s", r.err ? "an error after " : "", vt::hex(r.out).c_str(), vt::hex(want).c_str());
    }
}
static void both(const std::string& kind, const std::string& d, vt::Rng& rng) { forCuts(d.size(), rng, [&](const std::vector<size_t>& c) { vt::go(kind + ":" + vt::hex(d) + ":" + cutsStr(c)); }); }
void vt_run(int depth, vt::Rng& rng) {
    for (int i = 0; i < 65536; i += depth ? 1 : 7) both("enc", std::string{ (char)(i >> 8), (char)i }, rng);
    for (int i = 0; i < 256; i++) both("enc", std::string(1, (char)i), rng);
    both("enc", "", rng);
    const std::string al = "04f9AFa> \n", dig = "0123456789abcdefABCDEF"; std::string wsp("\0\t\n\f\r ", 6);
    size_t L = depth ? 5 : 4;
    for (size_t n = 0; n <= L; n++) {
        size_t tot = 1; for (size_t i = 0; i < n; i++) tot *= al.size();
        for (size_t x = 0; x < tot; x++) { std::string t; size_t y = x; for (size_t i = 0; i < n; i++) { t += al[y % al.size()]; y /= al.size(); } both("dec", t, rng); }
    }
    for (unsigned char w : wsp) for (char a : dig) for (char b : dig) { both("dec", std::string{ a, (char)w, b, '>' }, rng); both("dec", std::string{ a, b }, rng); }
    int N = depth ? 40000 : 4000;
    for (int i = 0; i < N; i++) {
        both("enc", rng.bytes(rng.below(300)), rng);
        std::string t; size_t n = rng.below(200); for (size_t k = 0; k < n; k++) t += rng.chance(80) ? dig[rng.below(dig.size())] : rng.chance(97) ? wsp[rng.below(6)] : '>';
        both("dec", t, rng);
    }
}
