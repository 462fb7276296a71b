#include "vt.h"
using namespace mm;
using namespace std::chrono;
// day:<days>:<second of day>:<offset|n>   a date written and read in both forms      year:<y>   the whole calendar of a year
// p:<hex>  w:<hex>   a text read and compared with a reference reading of the grammar
static bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int mlen(int y, int m) { static const int l[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m == 2 && leap(y) ? 29 : l[m - 1]; }
static long long daysof(int y, int m, int d) { // counted, no closed formula
    static std::vector<long long> first; if (first.empty()) { long long t = -719528; for (int i = 0; i <= 10000; i++) { first.push_back(t); t += leap(i) ? 366 : 365; } }
    long long t = first[y]; for (int i = 1; i < m; i++) t += mlen(y, i); return t + d - 1; }
struct R { bool ok = false, zone = false; long long secs = 0, off = 0; };
struct P { const std::string& s; size_t p = 0; 
    bool has() const { return p < s.size(); } char at() const { return has() ? s[p] : 0; } bool is(char c) const { return has() && s[p] == c; }
    bool dig() const { return has() && s[p] >= '0' && s[p] <= '9'; }
    bool sign() const { return is('+') || is('-') || is('Z'); }
    bool num(int w, int lo, int hi, int& v) { if (!dig()) return false; int n = 0, t = 0; while (n < w && dig()) { t = t * 10 + (at() - '0'); p++; n++; } if (n < w) { v = t < lo ? lo : t; return true; } v = t; return t >= lo && t <= hi; } };
static R ref(const std::string& s, bool w3c) {
    R r; P c{ s }; int v[6] = { 0, 1, 1, 0, 0, 0 }; static const int lo[] = { 0, 1, 1, 0, 0, 0 }, hi[] = { 9999, 12, 31, 23, 59, 59 }; const char* sep = " --T::";
    if (!w3c && c.is('D')) { c.p++; if (!c.is(':')) return r; c.p++; }
    bool zone = false, end = false;
    for (int k = 0; k < 6 && !zone && !end; k++) {
        if (k) { if (!c.has()) { end = true; break; } if ((!w3c || k == 5) && c.sign()) { zone = true; break; } if (w3c) { if (!c.is(sep[k])) return r; c.p++; } }
        if (!c.num(k ? 2 : 4, lo[k], hi[k], v[k])) return r; }
    if (!zone && !end) { if (w3c && c.is('.')) { c.p++; while (c.dig()) c.p++; } if (c.has()) { if (!c.sign()) return r; zone = true; } }
    if (zone) { int sg = c.is('-') ? -1 : c.is('Z') ? 0 : 1; c.p++; int zh = 0, zm = 0;
        if (c.has()) { if (!c.num(2, 0, 23, zh)) return r; if (c.is(w3c ? ':' : '\'')) { c.p++; if (c.has()) { if (!c.num(2, 0, 59, zm)) return r; if (!w3c && c.is('\'')) c.p++; } } if (c.has()) return r; if (!sg && (zh || zm)) return r; }
        r.zone = true; r.off = sg * (zh * 60 + zm); }
    if (v[2] > mlen(v[0], v[1])) return r;
    r.ok = true; r.secs = daysof(v[0], v[1], v[2]) * 86400 + v[3] * 3600 + v[4] * 60 + v[5] - r.off * 60; return r; }
static void text(const std::string& s, bool w3c) {
    std::unique_ptr<char[]> h(new char[s.size() ? s.size() : 1]); memcpy(h.get(), s.data(), s.size()); std::string_view v(h.get(), s.size());     // exactly these bytes, nothing behind them
    R r = ref(s, w3c); PdfDate d(seconds(77), minutes(5)); bool ok = w3c ? PdfDate::TryParseW3C(v, d) : PdfDate::TryParse(v, d);
    if (ok != r.ok) { vt::fail("%s is %s", s.c_str(), ok ? "accepted" : "rejected"); return; }
    bool threw = false; PdfDate e; try { e = w3c ? PdfDate::ParseW3C(v) : PdfDate::Parse(v); } catch (PdfError& x) { threw = true; if (x.GetError() != PdfErrorCode::InvalidDataType) vt::fail("error %d", (int)x.GetError()); }
    if (threw == ok) vt::fail("Parse and TryParse disagree on %s", s.c_str());
    if (!ok) return;
    if (!(e == d) || e != d) vt::fail("Parse and TryParse read %s differently", s.c_str());
    if (d.GetSecondsFromEpoch().count() != r.secs) vt::fail("%s is read as second %lld instead of %lld", s.c_str(), (long long)d.GetSecondsFromEpoch().count(), r.secs);
    if (d.GetMinutesFromUtc().has_value() != r.zone || (r.zone && d.GetMinutesFromUtc()->count() != r.off)) vt::fail("%s is read with another offset", s.c_str()); }
static void date(long long secs, bool zone, int off) {
    nullable<minutes> o; if (zone) o = minutes(off); PdfDate d(seconds(secs), o), r;
    std::string p = d.ToString().GetString(), w = d.ToStringW3C().GetString();
    for (int k = 0; k < 2; k++) {
        const std::string& t = k ? w : p;
        if (!(k ? PdfDate::TryParseW3C(t, r) : PdfDate::TryParse(t, r))) { vt::fail("%s is not read back", t.c_str()); continue; }
        if (!(r == d) || r != d || r.GetSecondsFromEpoch() != d.GetSecondsFromEpoch() || r.GetMinutesFromUtc().has_value() != zone || (zone && r.GetMinutesFromUtc()->count() != off)) vt::fail("second %lld offset %d is written as %s, read as second %lld", secs, off, t.c_str(), (long long)r.GetSecondsFromEpoch().count());
        R f = ref(t, k); if (!f.ok || f.secs != secs || f.zone != zone || f.off != off) vt::fail("second %lld offset %d is written as %s", secs, off, t.c_str()); } }
static int calendar(int y) {
    int n = 0; for (int m = 1; m <= 12; m++) for (int d = 1; d <= 32; d++) {
        char b[40]; snprintf(b, sizeof b, "D:%04d%02d%02d", y, m, d); PdfDate r; bool ok = PdfDate::TryParse(b, r); n++;
        if (ok != (d <= mlen(y, m))) vt::fail("%s is %s", b, ok ? "accepted" : "rejected");
        if (!ok) continue;
        long long z = daysof(y, m, d); if (r.GetSecondsFromEpoch().count() != z * 86400) vt::fail("%s is read as second %lld", b, (long long)r.GetSecondsFromEpoch().count());
        std::string t = r.ToString().GetString(); if (t != std::string(b) + "000000") vt::fail("%s is written as %s", b, t.c_str()); }
    return n; }
void vt_case(const std::string& c) {
    auto p = vt::split(c);
    if (p[0] == "year") { calendar(atoi(p[1].c_str())); return; }
    if (p[0] == "day") { bool z = p[3] != "n"; int off = z ? atoi(p[3].c_str()) : 0; date(atoll(p[1].c_str()) * 86400 + atoll(p[2].c_str()) - off * 60, z, off); return; }
    text(vt::unhex(p[1]), p[0] == "w"); }
void vt_run(int depth, vt::Rng& r) {
    for (int y = 0; y < 10000; y++) vt::go("year:" + std::to_string(y));
    for (int o = -1439; o <= 1439; o++) vt::go("day:" + std::to_string(r.below(3652425) - 719528) + ":" + std::to_string(r.below(86400)) + ":" + std::to_string(o));
    for (int s = 0; s < 86400; s += depth ? 1 : 7) vt::go("day:" + std::to_string((long long)r.below(3652425) - 719528) + ":" + std::to_string(s) + ":n");
    for (long long d : { -719528ll, -1ll, 0ll, 2932896ll }) for (int s : { 0, 1, 86399 }) for (const char* o : { "n", "0", "-1", "1", "59", "-59", "60", "-60", "1439", "-1439" }) vt::go("day:" + std::to_string(d) + ":" + std::to_string(s) + ":" + o);
    const char* full[][2] = { { "D:20200229123456+01'30'", "D:" }, { "20191231235959-23'59'", "" }, { "D:20000101000000Z00'00'", "" }, { "D:20000101000000Z", "" }, { "2020-02-29T12:34:56.789+01:30", "w" }, { "1999-12-31T23:59:59-23:59", "w" }, { "2000-01-01T00:00:00Z", "w" }, { "2000-01-01T00:00Z", "w" }, { "2000-01-01T00:00:00.5", "w" } };
    for (auto& f : full) for (int k = 0; k < 2; k++) { std::string s = f[0]; const char* pre = k ? "w:" : "p:";
        for (size_t n = 0; n <= s.size(); n++) { vt::go(pre + vt::hex(s.substr(0, n))); for (char c : std::string("0123456789D:TZ+-'. a/\0\xff", 23)) { vt::go(pre + vt::hex(s.substr(0, n) + c)); if (n < s.size()) { std::string t = s; t[n] = c; vt::go(pre + vt::hex(t)); t = s; t.insert(n, 1, c); vt::go(pre + vt::hex(t)); } }
            if (n < s.size()) { std::string t = s; t.erase(n, 1); vt::go(pre + vt::hex(t)); } } }
    int N = depth ? 2000000 : 150000; for (int i = 0; i < N; i++) { std::string s = full[r.below(9)][0]; int m = 1 + r.below(4); for (int j = 0; j < m; j++) { size_t p = r.below(s.size()); switch (r.below(4)) { case 0: s[p] = r.from("0123456789DTZ+-':.", 1)[0]; break; case 1: s.erase(p, 1); break; case 2: s.insert(p, r.from("0123456789DTZ+-':.", 1)); break; default: s.resize(p); if (s.empty()) s = "1"; } } vt::go((r.chance(50) ? "w:" : "p:") + vt::hex(s)); } }
