#include "vt.h"
#include <pdfmm/private/PdfDeclarationsPrivate.h>
#include <pdfmm/base/PdfStreamDevice.h>
using namespace mm;
// v:<value>  one value in every width and signedness      seq:<seed>  a sequence of values through one device     cut:<k>  data ends after k bytes
template <typename T> static void one(T v, void (*wb)(char*, T), void (*rb)(const char*, T&), void (*ws)(OutputStream&, T), void (*rs)(InputStream&, T&)) {
    constexpr size_t n = sizeof(T); char b[n + 2]; memset(b, 0x5A, sizeof b); wb(b + 1, v);
    if (b[0] != 0x5A || b[n + 1] != 0x5A) vt::fail("bytes outside are written");
    for (size_t i = 0; i < n; i++) if ((unsigned char)b[1 + i] != (unsigned char)((uint64_t)(std::make_unsigned_t<T>)v >> (8 * (n - 1 - i)))) vt::fail("%zu-bit value %lld is stored as %s", 8 * n, (long long)v, vt::hex(std::string(b + 1, n)).c_str());
    T r = (T)~v; rb(b + 1, r); if (r != v) vt::fail("%lld is read as %lld", (long long)v, (long long)r);
    charbuff out; { BufferStreamDevice d(out); ws(d, v); d.Write('x'); } if (out.size() != n + 1 || memcmp(out.data(), b + 1, n)) vt::fail("stream gets %s", vt::hex(std::string(out.data(), out.size())).c_str());
    SpanStreamDevice in(bufferview(out.data(), out.size())); r = (T)~v; rs(in, r); if (r != v) vt::fail("%lld is read from a stream as %lld", (long long)v, (long long)r);
    if (in.GetPosition() != n) vt::fail("%zu bytes are consumed", in.GetPosition()); }
static void all(uint64_t v) {
    one<uint32_t>((uint32_t)v, utls::WriteUInt32BE, utls::ReadUInt32BE, utls::WriteUInt32BE, utls::ReadUInt32BE); one<int32_t>((int32_t)v, utls::WriteInt32BE, utls::ReadInt32BE, utls::WriteInt32BE, utls::ReadInt32BE);
    one<uint16_t>((uint16_t)v, utls::WriteUInt16BE, utls::ReadUInt16BE, utls::WriteUInt16BE, utls::ReadUInt16BE); one<int16_t>((int16_t)v, utls::WriteInt16BE, utls::ReadInt16BE, utls::WriteInt16BE, utls::ReadInt16BE); }
void vt_case(const std::string& c) {
    auto p = vt::split(c); uint64_t v = strtoull(p[1].c_str(), 0, 10);
    if (p[0] == "v") { all(v); return; }
    if (p[0] == "cut") { std::string s(v, 'a'); uint32_t x; try { SpanStreamDevice d(s.data(), s.size()); utls::ReadUInt32BE(d, x); if (v < 4) vt::fail("%d bytes give a value", (int)v); } catch (PdfError&) { if (v >= 4) throw; } uint16_t y; try { SpanStreamDevice d(s.data(), s.size()); utls::ReadUInt16BE(d, y); if (v < 2) vt::fail("%d bytes give a value", (int)v); } catch (PdfError&) { if (v >= 2) throw; } return; }
    vt::Rng r(v); std::vector<std::pair<int, uint32_t>> vs; charbuff out; { BufferStreamDevice d(out); for (int n = r.below(40); n--;) { int k = r.below(4); uint32_t x = (uint32_t)r.next(); vs.push_back({ k, x }); if (k == 0) utls::WriteUInt32BE(d, x); else if (k == 1) utls::WriteInt32BE(d, (int32_t)x); else if (k == 2) utls::WriteUInt16BE(d, (uint16_t)x); else utls::WriteInt16BE(d, (int16_t)x); } }
    SpanStreamDevice in(bufferview(out.data(), out.size()));
    for (auto& x : vs) { uint32_t a; int32_t b; uint16_t e; int16_t f; bool ok = true; if (x.first == 0) { utls::ReadUInt32BE(in, a); ok = a == x.second; } else if (x.first == 1) { utls::ReadInt32BE(in, b); ok = b == (int32_t)x.second; } else if (x.first == 2) { utls::ReadUInt16BE(in, e); ok = e == (uint16_t)x.second; } else { utls::ReadInt16BE(in, f); ok = f == (int16_t)x.second; } if (!ok) vt::fail("a value of a sequence differs"); }
    if (!in.Eof()) vt::fail("bytes are left over");
    std::u16string u; for (int n = r.below(9); n--;) u += (char16_t)r.next(); auto w = u; utls::ByteSwap(w); for (size_t i = 0; i < u.size(); i++) if (w[i] != (char16_t)((u[i] >> 8) | (u[i] << 8))) vt::fail("code unit %zu is not swapped", i);
}
void vt_run(int depth, vt::Rng& rng) {
    for (unsigned i = 0; i < 65536; i++) vt::go("v:" + std::to_string(i * 65537u ^ ((uint64_t)(i & 255) << 16)));
    for (int b = 0; b < 32; b++) for (int d = -1; d <= 1; d++) { vt::go("v:" + std::to_string((uint32_t)((1ull << b) + d))); vt::go("v:" + std::to_string((uint32_t)~((1ull << b) + d))); }
    for (int i = 0; i < 8; i++) vt::go("cut:" + std::to_string(i));
    for (int i = 0; i < (depth ? 3000000 : 60000); i++) vt::go("v:" + std::to_string((uint32_t)rng.next()));
    for (int i = 0; i < (depth ? 100000 : 3000); i++) vt::go("seq:" + std::to_string(rng.below(1 << 30))); }
