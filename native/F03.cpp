#include "filt.h"
// dec:<hex>:<cuts>
void vt_case(const std::string& c) {
    auto p = vt::split(c); std::string d = vt::unhex(p[1]); auto cuts = cutsOf(p.size() > 2 ? p[2] : "");
    std::string want;
    for (size_t i = 0; i < d.size();) {
        unsigned L = (unsigned char)d[i++];
        if (L == 128) break;
        if (L < 128) { size_t n = std::min<size_t>(L + 1, d.size() - i); want += d.substr(i, n); i += n; }
        else if (i < d.size()) want += std::string(257 - L, d[i++]);
    }
    auto r = filt(PdfFilterType::RunLengthDecode, true, d, cuts);
    if (r.err || r.out != want) vt::fail("decodes to %s%s, expected %s", r.err ? "error " : "", vt::hex(r.out).substr(0, 300).c_str(), vt::hex(want).substr(0, 300).c_str());
}
static void both(const std::string& d, vt::Rng& rng) { forCuts(d.size(), rng, [&](const std::vector<size_t>& c) { vt::go("dec:" + vt::hex(d) + ":" + cutsStr(c)); }); }
void vt_run(int depth, vt::Rng& rng) {
    const std::string rep("\x00\x01\x02\x03\x7e\x7f\x80\x81\x82\xfd\xfe\xff\x41\x40", 14);
    size_t L = depth ? 5 : 3;
    for (size_t n = 0; n <= L; n++) { size_t tot = 1; for (size_t i = 0; i < n; i++) tot *= rep.size();
        if (tot > 40000) tot = 40000;
        for (size_t x = 0; x < tot; x++) { std::string t; size_t y = n > 4 ? rng.next() : x; for (size_t i = 0; i < n; i++) { t += rep[y % rep.size()]; y /= rep.size(); } both(t, rng); } }
    for (int l = 0; l < 256; l++) for (size_t n : { 0, 1, 2, 126, 127, 128, 129, 130, 257 }) { std::string t(1, (char)l); t += rng.bytes(n); both(t, rng); t += "\x01xy\x80zz"; both(t, rng); }
    int N = depth ? 40000 : 5000;
    for (int i = 0; i < N; i++) {
        std::string t; int k = rng.below(8);
        for (int j = 0; j < k; j++) { unsigned l = rng.below(256); if (l == 128 && rng.chance(80)) l = 5; t += (char)l; t += l < 128 ? rng.bytes(l + 1) : rng.bytes(1); }
        if (rng.chance(30)) t += rng.bytes(rng.below(5));
        both(t, rng);
    }
}
