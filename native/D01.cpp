#include "vt.h"
#include <pdfmm/base/PdfStreamDevice.h>
#include <memory>
#include <climits>
using namespace mm;
// h:<kind>:<access>:<seed>  a random history on a device of a kind (s span, t string, v vector, b buffer, n null) against a reference
// k:<kind>:<len>:<pos>:<offset>:<dir>  one seek           c:<kind>:<len>:<pos>:<size>  copying (size -1: everything)
struct Rig {
    char kind; unsigned acc; std::string init; std::vector<char> span; std::string s; std::vector<char> v; charbuff b; std::unique_ptr<StreamDevice> dev;
    Rig(char k, unsigned a, const std::string& i) : kind(k), acc(a), init(i) {
        auto A = (DeviceAccess)a; span.assign(i.begin(), i.end()); s = i; v = span; b = charbuff(std::string_view(i));
        if (k == 's') dev.reset(new SpanStreamDevice(span.data(), span.size(), A)); else if (k == 't') dev.reset(new StringStreamDevice(s, A, false)); else if (k == 'v') dev.reset(new VectorStreamDevice(v, A, false)); else if (k == 'b') dev.reset(new BufferStreamDevice(b, A, false)); else { dev.reset(new NullStreamDevice()); std::string z = i; dev->Write(z); } }
    std::string content() { if (kind == 's') return std::string(span.begin(), span.end()); if (kind == 't') return s; if (kind == 'v') return std::string(v.begin(), v.end()); return std::string(b.data(), b.size()); } };
template <typename F> static bool raises(F f) { try { f(); return false; } catch (PdfError&) { return true; } }
struct Ref { std::string d; size_t p = 0; };
static void same(Rig& g, Ref& r, const char* what) {
    if (g.dev->GetPosition() != r.p) vt::fail("%s: position %zu instead of %zu", what, g.dev->GetPosition(), r.p);
    if (g.dev->GetLength() != r.d.size()) vt::fail("%s: length %zu instead of %zu", what, g.dev->GetLength(), r.d.size());
    if (g.dev->Eof() != (r.p == r.d.size())) vt::fail("%s: Eof is %d at %zu of %zu", what, g.dev->Eof(), r.p, r.d.size());
    if (g.kind != 'n' && g.content() != r.d) vt::fail("%s: content differs", what); }
static bool target(const Ref& r, long long off, int dir, size_t& t) {
    __int128 x = off; x += dir == 0 ? 0 : dir == 1 ? (__int128)r.p : (__int128)r.d.size(); if (dir < 0 || dir > 2 || x < 0 || x > (__int128)r.d.size()) return false; t = (size_t)x; return true; }
void vt_case(const std::string& c) {
    auto q = vt::split(c); char k = q[1][0];
    if (q[0] == "k") {
        size_t n = atoi(q[2].c_str()); Rig g(k, 3, std::string(n, 'x')); Ref r; r.d = std::string(n, 'x'); r.p = atoi(q[3].c_str()); g.dev->Seek(r.p); long long off = strtoll(q[4].c_str(), 0, 10); int dir = atoi(q[5].c_str()); size_t t;
        bool ok = target(r, off, dir, t), threw = raises([&] { g.dev->Seek((ssize_t)off, (SeekDirection)dir); });
        if (ok == threw) vt::fail("seek to %lld from %d with position %zu of %zu %s", off, dir, r.p, n, threw ? "raises" : "is accepted"); if (ok) r.p = t; same(g, r, "seek"); return; }
    if (q[0] == "c") {
        size_t n = atoi(q[2].c_str()); std::string d(n, 0); for (size_t i = 0; i < n; i++) d[i] = (char)(i * 7 + i / 256); Rig g(k, 3, d); Ref r; r.d = d; r.p = atoi(q[3].c_str()); g.dev->Seek(r.p); long long sz = atoll(q[4].c_str());
        std::string out; { StringStreamDevice o(out); if (sz < 0) g.dev->CopyTo(o); else g.dev->CopyTo(o, (size_t)sz); } std::string want = d.substr(r.p, sz < 0 ? std::string::npos : (size_t)sz);
        if (out != want) vt::fail("copy gives %zu bytes instead of %zu%s", out.size(), want.size(), out.size() == want.size() ? " with other content" : ""); r.p += want.size(); same(g, r, "copy"); return; }
    unsigned acc = k == 'n' ? 3 : atoi(q[2].c_str()); vt::Rng rn(atoi(q[3].c_str())); Ref r; r.d = rn.bytes(rn.below(rn.chance(20) ? 300 : 12)); Rig g(k, acc, r.d); bool rd = acc & 1, wr = acc & 2; if (k == 'n') r.p = r.d.size();
    same(g, r, "start");
    for (int step = rn.below(40); step--;) switch (rn.below(9)) {
        case 0: { std::string w = rn.bytes(rn.below(rn.chance(10) ? 200 : 6)); bool fit = k != 's' || w.size() <= r.d.size() - r.p; bool threw = raises([&] { rn.below(2) ? g.dev->Write(w.data(), w.size()) : g.dev->Write(std::string_view(w)); });
            if (threw != (w.size() && !(wr && fit))) vt::fail("write of %zu at %zu of %zu %s", w.size(), r.p, r.d.size(), threw ? "raises" : "is accepted"); if (!threw) { if (r.p + w.size() > r.d.size()) r.d.resize(r.p + w.size()); r.d.replace(r.p, w.size(), w); r.p += w.size(); } same(g, r, "write"); break; }
        case 1: { char ch = (char)rn.next(); bool fit = k != 's' || r.p < r.d.size(); bool threw = raises([&] { g.dev->Write(ch); }); if (threw != !(wr && fit)) vt::fail("writing a character %s", threw ? "raises" : "is accepted"); if (!threw) { if (r.p == r.d.size()) r.d.push_back(ch); else r.d[r.p] = ch; r.p++; } same(g, r, "write"); break; }
        case 2: { size_t n = rn.below(r.d.size() + 3), left = r.d.size() - r.p; std::unique_ptr<char[]> b(new char[n + 1]); bool threw = raises([&] { g.dev->Read(b.get(), n); }); if (threw != !(rd && n <= left)) vt::fail("reading %zu of %zu bytes %s", n, left, threw ? "raises" : "succeeds"); if (!threw) { if (k != 'n' && std::string(b.get(), n) != r.d.substr(r.p, n)) vt::fail("other bytes are read"); r.p += n; } else { size_t p = g.dev->GetPosition(); if (p > r.d.size()) vt::fail("position %zu beyond the end", p); r.p = p; } same(g, r, "read"); break; }
        case 3: { size_t n = rn.below(r.d.size() + 3), left = r.d.size() - r.p, got = 0; bool eof = false; std::unique_ptr<char[]> b(new char[n + 1]); bool threw = raises([&] { got = g.dev->Read(b.get(), n, eof); }); if (threw != !rd) vt::fail("Read %s", threw ? "raises" : "succeeds"); if (!threw) { if (got != std::min(n, left)) vt::fail("%zu of %zu bytes are read, %zu left", got, n, left); if (k != 'n' && std::string(b.get(), got) != r.d.substr(r.p, got)) vt::fail("other bytes are read"); r.p += got; if (got < n && !eof) vt::fail("short without reporting the end"); if (eof && r.p != r.d.size()) vt::fail("end reported too early"); } same(g, r, "read"); break; }
        case 4: { char ch = 0; bool ok = false; bool threw = raises([&] { ok = g.dev->Read(ch); }); if (threw != !rd) vt::fail("Read %s", threw ? "raises" : "succeeds"); if (!threw) { if (ok != (r.p < r.d.size())) vt::fail("reading a character at %zu of %zu gives %d", r.p, r.d.size(), ok); if (ok) { if (k != 'n' && ch != r.d[r.p]) vt::fail("another character is read"); r.p++; } } same(g, r, "read"); break; }
        case 5: { char ch = 0; bool threw = raises([&] { ch = g.dev->ReadChar(); }); if (threw != !(rd && r.p < r.d.size())) vt::fail("ReadChar %s", threw ? "raises" : "succeeds"); if (!threw) { if (k != 'n' && ch != r.d[r.p]) vt::fail("another character is read"); r.p++; } same(g, r, "ReadChar"); break; }
        case 6: { char ch = 0; bool ok = false; bool threw = raises([&] { ok = g.dev->Peek(ch); }); if (threw != !rd) vt::fail("Peek %s", threw ? "raises" : "succeeds"); if (!threw && (ok != (r.p < r.d.size()) || (ok && k != 'n' && ch != r.d[r.p]))) vt::fail("Peek at %zu of %zu", r.p, r.d.size()); same(g, r, "peek"); break; }
        case 7: { if (k == 'n') break; long long off = (long long)rn.below(2 * r.d.size() + 4) - (long long)r.d.size() - 2; int dir = rn.below(3); size_t t; bool ok = target(r, off, dir, t), threw = raises([&] { g.dev->Seek((ssize_t)off, (SeekDirection)dir); }); if (ok == threw) vt::fail("seek to %lld from %d with position %zu of %zu %s", off, dir, r.p, r.d.size(), threw ? "raises" : "is accepted"); if (ok) r.p = t; same(g, r, "seek"); break; }
        default: { if (k == 'n') break; size_t t = rn.below(r.d.size() + 3); bool threw = raises([&] { g.dev->Seek(t); }); if (threw != (t > r.d.size())) vt::fail("seek to %zu of %zu %s", t, r.d.size(), threw ? "raises" : "is accepted"); if (!threw) r.p = t; same(g, r, "seek"); break; } }
}
void vt_run(int depth, vt::Rng& rng) {
    auto S = [](long long i) { return std::to_string(i); };
    for (char k : { 's', 't', 'v', 'b' }) {
        for (int n = 0; n <= 3; n++) for (int p = 0; p <= n; p++) for (int dir = 0; dir < 3; dir++) { for (int o = -5; o <= 5; o++) vt::go(std::string("k:") + k + ":" + S(n) + ":" + S(p) + ":" + S(o) + ":" + S(dir)); for (long long o : { LLONG_MAX, LLONG_MIN + 1, LLONG_MIN, LLONG_MAX - 1, 1ll << 32, -(1ll << 32) }) vt::go(std::string("k:") + k + ":" + S(n) + ":" + S(p) + ":" + S(o) + ":" + S(dir)); }
        for (int n : { 0, 1, 2, 100, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 20000 }) for (int p : { 0, 1, 50, 4096, 8192 }) if (p <= n) for (long long sz : { -1ll, 0ll, 1ll, 2ll, 4095ll, 4096ll, 4097ll, 8192ll, 12000ll, 100000ll, LLONG_MAX }) vt::go(std::string("c:") + k + ":" + S(n) + ":" + S(p) + ":" + S(sz)); }
    for (int i = 0; i < (depth ? 400000 : 20000); i++) for (char k : { 's', 't', 'v', 'b', 'n' }) vt::go(std::string("h:") + k + ":" + S(3 - std::min<int>(2, rng.below(5))) + ":" + S(rng.below(1 << 30))); }
