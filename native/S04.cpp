#include "vt.h"
#include <pdfmm/private/PdfDeclarationsPrivate.h>
#include <pdfmm/base/PdfTokenizer.h>
#include <pdfmm/base/PdfStreamDevice.h>
#include <pdfmm/base/PdfStringStream.h>
#include <cmath>
#include <limits>
using namespace mm;
// int:<v>:<flag>  bool:<v>:<flag>  null::<flag>  ref:<num>-<gen>:<flag>  real:<hex bits>:<flag>   value alone, flag 1 = no leading space
// seq:<seed>      array of such values           prec:<hex bits>:<precision>:<d|f>   string stream      width:<v>   formatTo of every width
static double bits(const std::string& h) { uint64_t b = strtoull(h.c_str(), 0, 16); double d; memcpy(&d, &b, 8); return d; }
static std::string hx(double d) { uint64_t b; memcpy(&b, &d, 8); char t[20]; snprintf(t, 20, "%llx", (unsigned long long)b); return t; }
static PdfVariant make(const std::string& k, const std::string& v) {
    if (k == "int") return PdfVariant((int64_t)strtoll(v.c_str(), 0, 10));
    if (k == "bool") return PdfVariant(v == "1");
    if (k == "null") return PdfVariant();
    if (k == "real") return PdfVariant(bits(v));
    unsigned n, g; sscanf(v.c_str(), "%u-%u", &n, &g); return PdfVariant(PdfReference(n, (uint16_t)g)); }
static void same(const PdfVariant& w, const PdfVariant& r, const std::string& text) {
    if (w.GetDataType() == PdfDataType::Real) {
        if (!r.IsNumberOrReal()) { vt::fail("%s is not read as a number", text.c_str()); return; }
        double a = w.GetReal(), b = r.GetReal(); double tol = 0.5000001e-6 + std::fabs(a) * 1e-15;
        if (!(std::fabs(a - b) <= tol)) vt::fail("real %.17g is read back as %.17g", a, b);
        if (a * b < 0) vt::fail("real %.17g changes its sign", a);
        return; }
    if (w.GetDataType() != r.GetDataType()) { vt::fail("type %s is read back as %s from %s", w.GetDataTypeString(), r.GetDataTypeString(), text.c_str()); return; }
    if (!(w == r) || w != r) vt::fail("value differs after reading %s", text.c_str());
    if (w.IsNumber() && w.GetNumber() != r.GetNumber()) vt::fail("number differs after reading %s", text.c_str());
    if (w.IsReference() && (w.GetReference().ObjectNumber() != r.GetReference().ObjectNumber() || w.GetReference().GenerationNumber() != r.GetReference().GenerationNumber())) vt::fail("reference differs after reading %s", text.c_str());
    if (w.IsBool() && w.GetBool() != r.GetBool()) vt::fail("bool differs after reading %s", text.c_str()); }
static void shape(const std::string& t, size_t from) {   // fixed notation, no exponent, no spaces inside
    for (size_t i = from; i < t.size(); i++) if (!(isdigit((unsigned char)t[i]) || t[i] == '.' || (t[i] == '-' && i == from))) { vt::fail("real is written as %s", t.c_str()); return; } }
static std::string write(const PdfVariant& v, bool ns) { charbuff b, tmp; BufferStreamDevice d(b); v.Write(d, ns ? PdfWriteFlags::NoInlineLiteral : PdfWriteFlags::None, PdfStatefulEncrypt(), tmp); return std::string(b.data(), b.size()); }
template <typename T> static void width(T v) {
    std::string s; utls::FormatTo(s, v); if (s != std::to_string(v)) vt::fail("%s is formatted as %s", std::to_string(v).c_str(), s.c_str()); }
void vt_case(const std::string& c) {
    auto p = vt::split(c);
    if (p[0] == "width") { uint64_t v = strtoull(p[1].c_str(), 0, 10); width((signed char)v); width((unsigned char)v); width((short)v); width((unsigned short)v); width((int)v); width((unsigned)v); width((long)v); width((unsigned long)v); width((long long)v); width((unsigned long long)v); return; }
    if (p[0] == "prec") {
        double d = bits(p[1]); unsigned pr = atoi(p[2].c_str()); PdfStringStream ss; ss.SetPrecision((unsigned short)pr); bool f = p[3] == "f"; if (f) { d = (float)d; ss << (float)d; } else ss << d;
        std::string t(ss.GetString()); shape(t, 0); char* end; double b = strtod(t.c_str(), &end); if (*end || t.empty()) { vt::fail("written as %s", t.c_str()); return; }
        double tol = 0.5000001 * std::pow(10.0, -(double)pr) + std::fabs(d) * 1e-15; if (!(std::fabs(b - d) <= tol)) vt::fail("%.17g with precision %u is written as %s", d, pr, t.substr(0, 80).c_str());
        if (b * d < 0) vt::fail("%.17g changes its sign: %s", d, t.c_str());
        size_t dot = t.find('.'); if (dot != std::string::npos && t.size() - dot - 1 > pr) vt::fail("too many digits: %s", t.c_str()); return; }
    if (p[0] == "seq") {
        vt::Rng r(atoi(p[1].c_str())); PdfArray a; int n = r.below(8); std::vector<PdfVariant> vs;
        for (int i = 0; i < n; i++) { std::string k[] = { "int", "bool", "null", "ref", "real" }; int j = r.below(8); if (j > 4) j = 0; std::string v = j == 0 ? std::to_string((int64_t)r.next() >> r.below(64)) : j == 1 ? std::to_string(r.below(2)) : j == 3 ? std::to_string(r.below(100) ? r.below(1000) : 4294967295u) + "-" + std::to_string(r.below(3) ? 0 : r.below(65536)) : hx((double)(int64_t)r.below(2000000000) / 1000 - 1e6); vs.push_back(make(k[j], v)); a.Add(PdfObject(vs.back())); }
        PdfVariant va(a); for (int ns = 0; ns < 2; ns++) {
            std::string t = write(va, ns); PdfTokenizer tk; SpanStreamDevice dev(bufferview(t.data(), t.size())); PdfVariant rv; tk.ReadNextVariant(dev, rv); const PdfArray* ra;
            if (!rv.TryGetArray(ra) || ra->size() != vs.size()) { vt::fail("array %s has %d elements", t.c_str(), rv.TryGetArray(ra) ? (int)ra->size() : -1); continue; }
            for (unsigned i = 0; i < ra->size(); i++) same(vs[i], (*ra)[i].GetVariant(), t); }
        // one after the other in a stream
        std::string t; for (auto& v : vs) t += write(v, false) ; PdfTokenizer tk; SpanStreamDevice dev(bufferview(t.data(), t.size())); PdfVariant rv; for (auto& v : vs) { if (!tk.TryReadNextVariant(dev, rv)) { vt::fail("a value of %s is lost", t.c_str()); break; } same(v, rv, t); }
        if (tk.TryReadNextVariant(dev, rv)) vt::fail("a value too many in %s", t.c_str());
        return; }
    PdfVariant v = make(p[0], p[1]); bool ns = p[2] == "1"; std::string t = write(v, ns);
    if (!ns && (t.empty() || t[0] != ' ')) vt::fail("no space before %s", t.c_str());
    if (ns && !t.empty() && t[0] == ' ') vt::fail("space before %s", t.c_str());
    if (p[0] == "real") shape(t, ns ? 0 : 1);
    for (const char* tail : { "", " ", "]", ">>", "/A", "\n0 0 1", " 7", " 7 8" }) {
        std::string u = t + tail; PdfTokenizer tk; SpanStreamDevice dev(bufferview(u.data(), u.size())); PdfVariant r(PdfString("old"));
        tk.ReadNextVariant(dev, r); same(v, r, u);
        if (strcmp(tail, " 7 8") == 0 || strcmp(tail, " 7") == 0) { int k = 7; for (; k < (tail[2] ? 9 : 8); k++) { PdfVariant x; if (!tk.TryReadNextVariant(dev, x) || !x.IsNumber() || x.GetNumber() != k) vt::fail("the value after %s is lost", u.c_str()); } }
        if (!*tail) { PdfVariant x; if (tk.TryReadNextVariant(dev, x)) vt::fail("another value after %s", u.c_str()); } }
    if (p[0] == "ref" && t.substr(ns ? 0 : 1) != v.GetReference().ToString()) vt::fail("reference text %s", v.GetReference().ToString().c_str());
}
void vt_run(int depth, vt::Rng& rng) {
    auto both = [](const std::string& s) { vt::go(s + ":0"); vt::go(s + ":1"); };
    both("null:"); both("bool:0"); both("bool:1");
    for (int b = 0; b < 64; b++) for (int d = -1; d <= 1; d++) { uint64_t v = (1ull << b) + d; both("int:" + std::to_string((int64_t)v)); both("int:" + std::to_string(-(int64_t)v)); vt::go("width:" + std::to_string(v)); vt::go("width:" + std::to_string(0 - v)); }
    for (uint64_t x = 1, i = 0; i < 19; i++, x *= 10) for (int d = -1; d <= 1; d++) { both("int:" + std::to_string((int64_t)(x + d))); both("int:" + std::to_string(-(int64_t)(x + d))); vt::go("width:" + std::to_string(x + d)); vt::go("width:" + std::to_string(0 - (x + d))); }
    for (unsigned n : { 1u, 2u, 9u, 10u, 65535u, 65536u, 8388607u, 4294967295u }) for (unsigned g : { 0u, 1u, 9u, 255u, 65534u, 65535u }) both("ref:" + std::to_string(n) + "-" + std::to_string(g));
    std::vector<double> rs = { 0.0, 1.0, 0.5, 0.1, 100.0, 1000000.0, 10.0, 1e15, 1e18, 9007199254740993.0, 1e19, 1.8446744073709552e19, 1e30, 1e300, 1.7976931348623157e308, 1e-6, 5e-7, 4.9e-7, 1e-7, 1e-300, 5e-324, 0.000001, 123.456, 99.9999999, 0.9999999, 1.0000005, 2147483648.0, 4294967296.5, 0.3, 20.05, 100.10 };
    for (double d : rs) for (double s : { 1.0, -1.0 }) { both("real:" + hx(d * s)); for (int pr : { 0, 1, 2, 3, 6, 10, 17, 40, 255, 256, 300, 700 }) vt::go("prec:" + hx(d * s) + ":" + std::to_string(pr) + ":d"); for (int pr : { 0, 1, 6, 9 }) if (std::fabs(d) < 1e38) vt::go("prec:" + hx(d * s) + ":" + std::to_string(pr) + ":f"); }
    for (int i = 0; i < (depth ? 100000 : 6000); i++) {
        both("int:" + std::to_string((int64_t)rng.next() >> rng.below(64))); vt::go("width:" + std::to_string(rng.next() >> rng.below(64)));
        double d = rng.chance(50) ? (double)(int64_t)(rng.next() >> rng.below(60)) / std::pow(10, rng.below(12)) : std::ldexp((double)(rng.next() >> 11), (int)rng.below(200) - 150); if (rng.chance(50)) d = -d;
        both("real:" + hx(d)); vt::go("prec:" + hx(d) + ":" + std::to_string(rng.below(20)) + ":d"); if (std::fabs(d) < 1e38) vt::go("prec:" + hx(d) + ":" + std::to_string(rng.below(9)) + ":f");
        both("ref:" + std::to_string(1 + rng.below(1ull << (1 + rng.below(31)))) + "-" + std::to_string(rng.below(65536))); vt::go("seq:" + std::to_string(rng.below(1 << 30))); }
}
