#include "filt.h"
// enc:<hex>:<cuts>   decode(encode(x)) == x whatever the blocks; the text denotes x by an independent decoder
// dec:<hex>:<cuts>   text over alphabet, white space, z, ~>; compared with the specification (error or bytes)
struct O { bool err = false; std::string out; };
static bool ws(unsigned char c) { return c == 0 || c == 8 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32 || c == 127; }
static O oracle(const std::string& t, bool* inRange = nullptr) {
    O r; unsigned long long g[5]; int n = 0; if (inRange) *inRange = true;
    auto flush = [&](int k) { // k characters present
        unsigned long long v = 0; for (int i = 0; i < 5; i++) v = v * 85 + (i < k ? g[i] : 0);
        if (k < 5) { unsigned long long p = 1; for (int i = k; i < 5; i++) p *= 85; v += p; }   // rounding up, as the encoder truncates
        if (v > 0xffffffffull && inRange) *inRange = false;
        for (int i = 0; i < k - 1; i++) r.out += (char)(v >> (24 - 8 * i)); };
    size_t i = 0;
    for (; i < t.size(); i++) {
        unsigned char c = t[i];
        if (ws(c)) continue;
        if (c == '~') { if (i + 1 < t.size() && t[i + 1] != '>') { r.err = true; return r; } break; }
        if (c == 'z') { if (n) { r.err = true; return r; } r.out += std::string(4, 0); continue; }
        if (c < '!' || c > 'u') { r.err = true; return r; }
        g[n++] = c - '!'; if (n == 5) { flush(5); n = 0; }
    }
    if (n > 1) flush(n);
    return r;
}
void vt_case(const std::string& c) {
    auto p = vt::split(c); std::string d = vt::unhex(p[1]); auto cuts = cutsOf(p.size() > 2 ? p[2] : "");
    if (p[0] == "enc") {
        auto e = filt(PdfFilterType::ASCII85Decode, false, d, cuts);
        if (e.err) { vt::fail("encoding failed"); return; }
        for (unsigned char ch : e.out) if (!((ch >= '!' && ch <= 'u') || ch == 'z' || ch == '~' || ws(ch))) { vt::fail("encoder wrote %s", vt::hex(e.out).c_str()); return; }
        auto o = oracle(e.out);
        if (o.err || o.out != d) vt::fail("encoded text %s denotes %s", vt::hex(e.out).c_str(), vt::hex(o.out).c_str());
        auto r = filt(PdfFilterType::ASCII85Decode, true, e.out, {});
        if (r.err || r.out != d) vt::fail("round trip gives %s", vt::hex(r.out).c_str());
        auto r2 = filt(PdfFilterType::ASCII85Decode, true, e.out + "~>", {});
        if (r2.err || r2.out != d) vt::fail("round trip with end marker gives %s", vt::hex(r2.out).c_str());
        if (e.out.size() > 1) { auto r3 = filt(PdfFilterType::ASCII85Decode, true, e.out + "~>", { e.out.size() / 2, e.out.size() / 2 + 1 }); if (r3.err || r3.out != d) vt::fail("round trip in blocks gives %s", vt::hex(r3.out).c_str()); }
        auto e1 = filt(PdfFilterType::ASCII85Decode, false, d, {});
        if (e1.out != e.out) vt::fail("encoding depends on the blocks");
    } else {
        bool ir; auto want = oracle(d, &ir); if (!ir) return;   // a group above 2^32-1: not specified
        auto r = filt(PdfFilterType::ASCII85Decode, true, d, cuts);
        if (r.err != want.err || (!r.err && r.out != want.out)) vt::fail("decodes to %s%s, expected %s%s", r.err ? "error " : "", vt::hex(r.out).c_str(), want.err ? "error " : "", vt::hex(want.out).c_str());
    }
}
static void both(const std::string& kind, const std::string& d, vt::Rng& rng) { forCuts(d.size(), rng, [&](const std::vector<size_t>& c) { vt::go(kind + ":" + vt::hex(d) + ":" + cutsStr(c)); }); }
void vt_run(int depth, vt::Rng& rng) {
    const std::string rep("\x00\x01\x7f\x80\xff\xaa\x20", 7);
    for (size_t n = 0; n <= 4; n++) { size_t tot = 1; for (size_t i = 0; i < n; i++) tot *= rep.size();
        for (size_t x = 0; x < tot; x++) { std::string t; size_t y = x; for (size_t i = 0; i < n; i++) { t += rep[y % rep.size()]; y /= rep.size(); } both("enc", t, rng); } }
    for (int i = 0; i < 65536; i += depth ? 1 : 11) { vt::go("enc:" + vt::hex(std::string{ (char)(i >> 8), (char)i }) + ":"); vt::go("enc:" + vt::hex(std::string{ (char)(i >> 8), (char)i, (char)rng.next() }) + ":1"); }
    for (int b = 0; b < 256; b++) { both("enc", std::string(1, (char)b), rng); both("dec", std::string(1, (char)b), rng); both("dec", std::string("87c") + (char)b + "URZ", rng); }
    const std::string al = "!uz~> v5"; size_t L = depth ? 6 : 4;
    for (size_t n = 0; n <= L; n++) { size_t tot = 1; for (size_t i = 0; i < n; i++) tot *= al.size();
        for (size_t x = 0; x < tot; x++) { std::string t; size_t y = x; for (size_t i = 0; i < n; i++) { t += al[y % al.size()]; y /= al.size(); } both("dec", t, rng); } }
    int N = depth ? 40000 : 4000;
    for (int i = 0; i < N; i++) {
        std::string d = rng.bytes(rng.below(260)); if (i % 3 == 0) for (auto& ch : d) if (rng.chance(70)) ch = 0;
        both("enc", d, rng);
        charbuff eb; PdfFilterFactory::Create(PdfFilterType::ASCII85Decode)->EncodeTo(eb, bufferview(d.data(), d.size()));
        std::string t; for (char ch : eb) { t += ch; if (rng.chance(10)) t += std::string("\0\t\n\f\r ", 6)[rng.below(6)]; if (rng.below(500) == 0) t += (char)rng.next(); }
        if (rng.chance(70)) t += "~>"; if (rng.chance(30)) t += rng.bytes(rng.below(6));
        both("dec", t, rng);
    }
}
